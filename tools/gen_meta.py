#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = 'weatherbenchX/'


def P(id, title, statement, over, qtext, why, files, mech, observe, state=()):
  return dict(
      id=id, title=title, statement=' '.join(statement.split()),
      quantifier=dict(over=over.split(), text=' '.join(qtext.split())),
      why_tests_cant=' '.join(why.split()),
      anchors=dict(
          files=[W + f if '/' not in f or f.split('/')[0] in (
              'metrics', 'data_loaders', 'statistical_inference') else f
                 for f in files],
          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
          mechanism=[dict(name=n, where=w) for n, w in mech],
          observe_at=list(observe), hook_needed=None))


PROPS = [
 P('C01', 'Time chunking is an exact partition with truthful offsets',
   '''For every set of initialization times, every set (or interval) of lead
   times and all chunk sizes, the chunks cover every (initialization, lead)
   pair exactly once, in a fixed order that iteration, indexing, length and
   repeated iteration all agree on. The offset reported with a chunk is the
   position of that chunk in the full list of times, and the time values of a
   chunk are exactly the requested ones. Unusable requests (negative sizes,
   open or stepped intervals, chunked intervals) are refused.''',
   'inputs configurations', '''all initialization/lead time sets (regular,
   irregular, unsorted, any unit, intervals) and all chunk sizes including
   none, zero, one, non-divisors and oversized''',
   '''Tests use one 4x2 example with divisor chunk sizes; the guarantee is over
   all sizes and shapes, and an off-by-one silently drops or doubles
   forecasts.''',
   ['time_chunks.py'],
   [('TimeChunks.__iter__/__getitem__/iter_with_chunk_offsets', 'weatherbenchX/time_chunks.py')],
   ['iteration, indexing, len() and offset iteration of TimeChunks']),
 P('C02', 'Chunking and merge order never change an evaluation result',
   '''Evaluating any split of the data into time chunks (or of sparse
   observations into arbitrary groups) and combining the partial results in any
   order, grouping or nesting, with empty partial results mixed in, gives the
   same weighted sums, weights and metric values as one evaluation of all data,
   up to floating point rounding. No label, bin, variable or statistic is lost
   or invented, also when chunks have different labels, and combining does not
   modify the partial results.''',
   'inputs configurations schedules', '''all metrics, reduce dimensions, bins,
   weights, masks, chunk sizes, and all merge trees, permutations and
   accumulator schedules''',
   '''Tests compare a handful of fixed chunkings; merge order depends on the
   runner and every tree shape must agree.''',
   ['aggregation.py', 'beam_utils.py', 'metrics/base.py'],
   [('AggregationState.sum / combining_sum', 'weatherbenchX/aggregation.py'),
    ('CombiningSum combiner', 'weatherbenchX/beam_utils.py')],
   ['partial aggregation states', 'merged aggregation state', 'metric values'],
   [('aggregation state', 'weighted sums and weights per statistic and variable',
     'weatherbenchX/aggregation.py')]),
 P('C03', 'The distributed pipeline gives the in-memory result',
   '''Running the evaluation pipeline on any chunking of the times writes exactly
   the metric values and the intermediate state that a single in-memory
   evaluation of all the data gives, whether the time dimensions are reduced or
   kept, with bins, weights, masks, skipped missing values and several output
   aggregations. Every element is processed exactly once regardless of how the
   runner bundles and orders the work, and nothing is written when a chunk
   fails.''',
   'inputs configurations schedules fault_sequences', '''all chunk sizes,
   reduce dimensions, metric sets, aggregators, dense and sparse data, and
   runner bundle orders; loader faults at any chunk''',
   '''Tests run a few fixed configurations of the direct runner; grouping keys,
   offsets and time concatenation must be right for all shapes.''',
   ['beam_pipeline.py', 'beam_utils.py', 'aggregation.py', 'time_chunks.py'],
   [('define_pipeline', 'weatherbenchX/beam_pipeline.py'),
    ('ConcatPerStatisticPerVariable / combiner stages', 'weatherbenchX/beam_pipeline.py')],
   ['written metric file', 'written aggregation state file', 'loader calls']),
 P('C04', 'Aggregates are the weighted mean over exactly the selected data',
   '''The aggregated value of a statistic in a bin is the sum over the reduced
   dimensions of statistic x weights x bin membership x mask, divided by the
   same sum of the weights alone. Several weights and bins multiply, dimensions
   not reduced are kept with their labels, statistics lacking a reduced
   dimension are left out, and dimension order does not matter.''',
   'inputs configurations', '''all dimension orders, reduce sets, weights, bins,
   masks, missing-value options, dtypes and data''',
   '''Tests check single examples of a region, weight or mask; the formula must
   hold for all combinations of options.''',
   ['aggregation.py', 'weighting.py', 'binning.py'],
   [('Aggregator.aggregation_fn', 'weatherbenchX/aggregation.py'),
    ('Aggregator.aggregate_stat_var', 'weatherbenchX/aggregation.py')],
   ['aggregation state', 'metric values']),
 P('C05', 'Missing values surface and masked values never count',
   '''A missing prediction or target that is not masked makes every aggregate
   that it contributes to missing and leaves the other aggregates unchanged;
   no metric turns it into a valid (perfect, zero or complete) score. Values
   under the mask of the targets have no influence whatsoever when evaluating
   masked, whatever they contain.''',
   'inputs configurations', '''every shipped metric x position of the missing
   value (predictions, targets, one ensemble member) x dimension kept or
   reduced x mask shapes x garbage under the mask''',
   '''Tests check missing values for a few metrics at one position each.''',
   ['aggregation.py', 'metrics/base.py', 'metrics/categorical.py',
    'metrics/deterministic.py', 'metrics/probabilistic.py',
    'metrics/spatial.py', 'metrics/wrappers.py'],
   [('Aggregator mask/skipna handling', 'weatherbenchX/aggregation.py'),
    ('mask coordinate propagation through statistics', 'weatherbenchX/metrics/')],
   ['metric values per bin/time', 'sum of weights']),
 P('C06', 'Partial results form a monoid and survive storage unchanged',
   '''Partial results combine commutatively and associatively with the empty
   result as identity, labels are joined with zero filling, and summing over
   more dimensions afterwards equals having reduced them in the first place
   (missing values included). Converting a partial result to a tree, to a flat
   dataset or to a file and back gives an identical partial result with which
   the evaluation can continue.''',
   'inputs histories', '''all nesting depths, names, dimension orders, labels,
   dtypes and values including missing and infinite, and all sequences of
   merge/reduce/store/restore''',
   '''Tests round-trip one example; names with special characters, scalar
   leaves and missing values need generation.''',
   ['aggregation.py', 'xarray_tree.py'],
   [('AggregationState.sum / sum_along_dims / dot / map_multi', 'weatherbenchX/aggregation.py'),
    ('to_data_tree / from_data_tree / to_dataset / from_dataset', 'weatherbenchX/aggregation.py')],
   ['aggregation state contents before and after']),
 P('C07', 'Every datum counts in exactly the bins it belongs to',
   '''For each kind of binning (regions, land/sea, latitude and longitude bands,
   time units and sets of them, exact coordinate values, coordinate intervals,
   value sets and their complements) an element is in a bin if and only if its
   coordinates satisfy the definition of that bin, with longitudes compared
   modulo 360 degrees and closed or half-open limits as documented. Every
   requested bin, including the global one, appears exactly once under its
   label, also when it or the whole input is empty.''',
   'inputs configurations', '''all coordinates (both longitude conventions,
   values on the limits, wrapped regions, leap days, 2-d times, sparse and
   dense layouts) and all binning options''',
   '''Tests check the means of a few boxes; limits, wrap-around and empty input
   are only sampled.''',
   ['binning.py'], [('create_bin_mask of each binning', 'weatherbenchX/binning.py')],
   ['bin masks', 'per-bin sums and weights']),
 P('C08', 'Area weights are the exact areas of the latitude cells',
   '''The weight of a latitude is proportional to the area of its grid cell,
   bounded by the midpoints to its neighbours and by the poles, for regular and
   irregular grids in either direction, with mean one when normalised. Data
   without a latitude dimension get no weighting, and latitudes that do not
   form a grid are refused.''',
   'inputs', '''all strictly monotonic latitude vectors of two or more points,
   either direction, global or regional, any dtype''',
   '''Tests use two regular grids; the guarantee is over all grids.''',
   ['weighting.py'], [('GridAreaWeighting.weights', 'weatherbenchX/weighting.py'),
                      ('latitude_cell_bounds', 'weatherbenchX/weighting.py')],
   ['weights', 'area-weighted metric values']),
 P('C09', 'Evaluating metrics together equals evaluating each alone',
   '''The values of a metric do not depend on which other metrics are evaluated
   in the same run: two metrics (or two configurations of one) never share a
   statistic that they would compute differently, and names, order and failures
   of one never leak into another. Statistics requested by several metrics are
   computed once.''',
   'configurations', '''all pairs and larger sets of metrics and of their
   parameter values, wrappers included''',
   '''Tests never evaluate differently configured instances of one metric
   together; the number of pairs is quadratic in metrics and parameters.''',
   ['metrics/base.py', 'metrics/deterministic.py', 'metrics/categorical.py',
    'metrics/probabilistic.py', 'metrics/spatial.py', 'metrics/wrappers.py'],
   [('unique_name of each statistic', 'weatherbenchX/metrics/'),
    ('compute_unique_statistics_for_all_metrics', 'weatherbenchX/metrics/base.py')],
   ['metric values evaluated alone and together', 'number of statistic computations']),
 P('C10', 'Deterministic scores equal their published definitions',
   '''Bias, mean absolute, mean squared and root mean squared error, prediction
   and target averages, vector wind error, relative intensity, anomaly
   correlation, activity and error exceedance equal their definitions applied
   to the weighted set of (prediction, target) pairs, for any dimension order,
   labels order of operation, variable set, time and space dimensions reduced
   or kept. Non-linear steps (roots, ratios, correlations) are taken after the
   averaging.''',
   'inputs configurations', '''all data, dimension orders, variable sets, reduce
   sets, weights and bins''',
   '''Tests check single arrays; sign, order and averaging mistakes that cancel
   in symmetric examples need varied data.''',
   ['metrics/deterministic.py', 'metrics/base.py'],
   [('statistics and values_from_mean_statistics', 'weatherbenchX/metrics/deterministic.py')],
   ['metric values']),
 P('C11', 'Categorical scores equal their contingency-table definitions',
   '''Every score of binary events, the reliability curve, SEEPS, the ranked
   probability score, and the interval confidence, coverage and distance
   statistics equal their definitions applied to the weighted contingency
   tables of the evaluated pairs, including events that never occur.
   Thresholds, dry/light/heavy categories and the climatological dry-fraction
   limits apply at the valid time and place of each forecast.''',
   'inputs configurations', '''all binary fields, probabilities, thresholds,
   climatologies and degenerate tables (no events, only events)''',
   '''Tests compare one table per score; degenerate and unbalanced tables and
   time-dependent thresholds are not covered.''',
   ['metrics/categorical.py'],
   [('contingency statistics and score formulas', 'weatherbenchX/metrics/categorical.py'),
    ('SEEPS categories and scoring matrix', 'weatherbenchX/metrics/categorical.py')],
   ['metric values', 'SEEPS mask']),
 P('C12', 'Ensemble scores equal their estimator definitions',
   '''CRPS (fair and conventional, both algorithms), its distance form, ensemble
   variance, unbiased ensemble-mean error, spread-skill ratio, ensemble ranked
   probability score, rank histogram, Wasserstein distance, relative economic
   value and ensemble-averaged metrics equal their published estimators for
   every ensemble size, member order and tie pattern. With missing members
   skipped, each point is scored as if its missing members did not exist, and
   without skipping a missing member makes the point missing.''',
   'inputs configurations', '''all ensemble sizes, ties, dimension positions,
   ensemble targets, missing members and options''',
   '''Tests use random normal members of one size; ties, tiny ensembles and
   variable numbers of valid members are not covered.''',
   ['metrics/probabilistic.py'],
   [('CRPSSkill/CRPSSpread/EnsembleVariance/...', 'weatherbenchX/metrics/probabilistic.py'),
    ('RelativeEconomicValue', 'weatherbenchX/metrics/probabilistic.py')],
   ['per-point statistics', 'metric values']),
 P('C13', 'Fractions skill score uses the exact neighbourhood fractions',
   '''For each window size the score compares, at every grid point, the exact
   fraction of events in the centred square window (wrapping in longitude only
   if requested); points whose window leaves the domain do not contribute. A
   masked point excludes exactly the windows that contain it, whatever the
   order of dimensions, and size one compares the fields themselves.''',
   'inputs configurations', '''all binary fields, odd window sizes and lists of
   them, wrapping options, dimension orders, extra dimensions and masks''',
   '''Tests compare a few sizes on one grid; borders, wrap-around and masks need
   all positions.''',
   ['metrics/spatial.py'],
   [('neighborhood_averaging', 'weatherbenchX/metrics/spatial.py'),
    ('FSS', 'weatherbenchX/metrics/spatial.py')],
   ['per-point statistics', 'mask coordinate', 'metric values']),
 P('C14', 'Input transforms apply their definition to the stated inputs only',
   '''Thresholding, binning, cumulative-distribution, ensemble mean, ensemble to
   probability, rectification, shifting, renaming, selection, stacking and
   inline transforms change exactly the inputs they are configured for
   (predictions, targets or both), element by element as documented, keep
   missing values missing, and are applied in the listed order. Time dependent
   thresholds are looked up at each forecast's own time.''',
   'inputs configurations', '''all data, thresholds (scalar, list, array, per
   variable, per valid time), which-side options and transform chains''',
   '''Tests apply each transform once; composition order, boundary values and
   time lookup are sampled.''',
   ['metrics/wrappers.py'],
   [('InputTransform subclasses', 'weatherbenchX/metrics/wrappers.py'),
    ('WrappedStatistic/WrappedMetric', 'weatherbenchX/metrics/wrappers.py')],
   ['transformed inputs', 'metric values of wrapped metrics']),
 P('C15', 'Climatologies are looked up at the valid time of each forecast',
   '''Whenever a climatology enters a score or serves as a forecast, the value
   used for a forecast is the climatology at that forecast's own valid time
   (initialization plus lead), matched by day of year and hour, by day of year,
   or by exact time, at the same place. This holds across year ends, leap days
   and lead times longer than a day, for every dimension order and chunking.''',
   'inputs configurations', '''all initialization/lead sets including leap years
   and year ends, climatology layouts and variables''',
   '''Tests use one start date; leap days and year boundaries are not
   covered.''',
   ['metrics/base.py', 'metrics/deterministic.py', 'metrics/categorical.py',
    'data_loaders/xarray_loaders.py'],
   [('PerVariableStatisticWithClimatology', 'weatherbenchX/metrics/base.py'),
    ('ClimatologyFromXarray', 'weatherbenchX/data_loaders/xarray_loaders.py')],
   ['metric values with position-coded climatologies', 'loaded chunks']),
 P('C16', 'Gridded loaders deliver exactly the requested times and variables',
   '''For every chunk of requested times the gridded prediction, target,
   climatology, persistence and probabilistic climatology loaders return the
   stored values belonging to exactly those times (targets at the valid time),
   in the requested labels, with the requested variables, renames, selections
   and hooks applied. Loading in chunks equals loading at once, the stored data
   are not modified, and missing times are an error rather than a substitute.''',
   'inputs configurations histories', '''all stores (dimension orders, names,
   extra dimensions), options, times and sequences of chunk requests''',
   '''Tests load one chunk per loader; combinations of renames, selections,
   masks and repeated loading are not covered.''',
   ['data_loaders/xarray_loaders.py', 'data_loaders/base.py'],
   [('XarrayDataLoader and subclasses', 'weatherbenchX/data_loaders/xarray_loaders.py'),
    ('DataLoader.load_chunk', 'weatherbenchX/data_loaders/base.py')],
   ['loaded chunks', 'hook calls']),
 P('C17', 'Sparse observations are matched to forecasts exactly once',
   '''For every requested chunk the sparse loader returns exactly the stored
   observations whose time matches the requested initialization and lead times
   (exactly, within the tolerance, or within the interval), labelled with the
   right initialization, lead and valid time, independent of how files are
   partitioned. When duplicates are removed the observation closest in time
   wins per station and forecast; observations flagged as bad or missing never
   appear as valid values.''',
   'inputs configurations', '''all observation sets, file partitionings, times
   on interval edges, tolerances and duplicate patterns''',
   '''Tests use one synthetic file set; edges of intervals, file boundaries and
   ties are not covered.''',
   ['data_loaders/sparse_parquet.py'],
   [('SparseObservationsFromParquet', 'weatherbenchX/data_loaders/sparse_parquet.py'),
    ('METARFromParquet', 'weatherbenchX/data_loaders/sparse_parquet.py')],
   ['loaded chunks']),
 P('C18', 'Latency wrappers serve the newest forecast available in time',
   '''A forecast queried at some time is the most recent nominal run that, with
   its latency, was already available, with its lead times shifted so that the
   valid time is unchanged and labelled with the queried times; runs from the
   future are never used. With several sources the one giving the most recent
   available run is used, sources without an available run are ignored, and it
   is an error if none has one.''',
   'inputs configurations', '''all nominal run times, latencies (zero, exact,
   longer than the cycle), query times and sets of sources''',
   '''Tests use one or two latencies and query times; the boundary where a run
   just becomes available must hold for all.''',
   ['data_loaders/latency_wrappers.py'],
   [('ConstantLatencyWrapper', 'weatherbenchX/data_loaders/latency_wrappers.py'),
    ('MultipleConstantLatencyWrapper', 'weatherbenchX/data_loaders/latency_wrappers.py')],
   ['loaded chunks', 'requests received by the wrapped source']),
 P('C19', 'Interpolation delivers the reference grid with correct values',
   '''Interpolating forecasts to other grids or to station locations returns
   values on exactly the coordinates and layout of the reference, reproduces
   fields linear between grid points exactly for linear methods and the nearest
   stored value for the nearest method, treats longitudes as periodic when
   asked and never mixes up points, times or variables. Points outside the
   source domain are missing unless extrapolation was requested, and only data
   within the requested limits are used.''',
   'inputs configurations', '''all source/target grids (orders, conventions,
   regional/global), station sets, methods and wrap options''',
   '''Tests use constant or tiny fields; index or order mix-ups and the seam of
   the globe need position-coded data.''',
   ['interpolations.py', 'data_loaders/base.py'],
   [('InterpolateToReferenceCoords and others', 'weatherbenchX/interpolations.py')],
   ['interpolated chunks']),
 P('C20', 'Files appear complete and atomically or not at all',
   '''At every moment, the destination of a written result is either its previous
   complete content (or absent) or the new complete content: readers never see
   a partial file, whatever the point at which the writer fails, is killed or
   races with other writers. A failed write raises and leaves the previous
   content intact and no stray file behind.''',
   'crash_points fault_sequences schedules', '''every write/flush/close/rename
   crash or fault point and all interleavings of concurrent writers and
   readers''',
   '''Tests write one file; crashes, faults and races cannot be seen by
   asserting on the final content.''',
   ['beam_utils.py', 'beam_pipeline.py'],
   [('atomic_write', 'weatherbenchX/beam_utils.py')],
   ['destination path as seen by concurrent readers', 'directory listing after crash']),
 P('C21', 'The unaggregated pipeline writes every statistic exactly once',
   '''The store of unaggregated statistics contains, for each metric, variable
   and (initialization, lead) pair, exactly the value that evaluating that pair
   in memory gives, at the right labels, for every chunking of the times and of
   the store. No cell is left unwritten, written from another chunk, or
   duplicated.''',
   'inputs configurations schedules', '''all time sets, chunk sizes, store
   chunkings, metrics and interval lead times''',
   '''Tests write one small store with one chunking.''',
   ['beam_pipeline.py'],
   [('define_unaggregated_pipeline', 'weatherbenchX/beam_pipeline.py')],
   ['written store contents']),
 P('C22', 'Confidence intervals follow the documented t-test formulas',
   '''For every metric the t-test methods return the metric value of all data as
   the point estimate and the standard errors, intervals and p-values of the
   documented formulas (independent units; AR(2) inflation after Geer;
   equal-weighted cosine long-run variance after Lazarus et al.), computed from
   the per-unit linearisation of the metric, weights included. Intervals are
   nested in the confidence level, agree with the p-values and significance
   tests, shift and scale with the data, and for independent units do not
   depend on their order. A system compared with itself is never significant, a
   unit with a missing statistic makes its results missing, and the time-series
   methods refuse units that are not equally spaced.''',
   'inputs configurations', '''all numbers of units, kept dimensions, weights,
   metrics, correlation patterns, levels and null values''',
   '''Tests check coverage on simulated data; formula slips that change an
   interval by some percent pass them.''',
   ['statistical_inference/t_test.py', 'statistical_inference/autodiff.py',
    'statistical_inference/base.py', 'statistical_inference/utils.py'],
   [('TTest methods', 'weatherbenchX/statistical_inference/t_test.py')],
   ['point estimates, standard errors, intervals, p-values']),
 P('C23', 'Bootstrap replicates are consistent evaluations of resampled units',
   '''Every bootstrap replicate is the metric evaluated on a resample of whole
   experimental units drawn as documented (independently; as whole clusters; or
   in blocks of random length with the given or automatically chosen mean,
   wrapping around), the same draw being used for all statistics, their weights
   and both compared systems. Point estimates equal the plain evaluation of all
   units. Standard errors, percentile intervals, p-values and significance are
   those of the replicates (missing ones skipped) and agree with each other; a
   system compared with itself is never significant. Results come as DataArrays
   with the labels of the metric and are reproducible for a numpy seed.
   Systems with different units are refused.''',
   'inputs configurations schedules', '''all numbers of units, block lengths,
   kept dimensions, seeds and metrics''',
   '''Tests check coverage statistically; resampling different statistics with
   different draws or dropping units hides within that noise.''',
   ['statistical_inference/bootstrap.py', 'statistical_inference/base.py'],
   [('Bootstrap and block bootstrap classes', 'weatherbenchX/statistical_inference/bootstrap.py')],
   ['replicates, intervals and p-values']),
 P('C24', 'Per-unit linearisation equals the derivative of the metric',
   '''For every differentiable metric the per-unit linearised values equal the
   first-order change of the metric when the mean statistics and weights move
   towards that unit's; they average to zero over the units, and for plain
   means are the per-unit deviations. The metric value returned with them is
   that of all units. Labels and units are kept, inputs are not modified, a
   missing statistic makes only the results it enters missing, and units that
   are absent or differ between statistics are refused.''',
   'inputs configurations', '''all differentiable metrics, weights, bins, kept
   dimensions and missing values''',
   '''Tests check a ratio of means; derivative errors of other metrics or
   mislabelled units are not covered.''',
   ['statistical_inference/autodiff.py'],
   [('per_unit_values_linearized_around_mean_statistics', 'weatherbenchX/statistical_inference/autodiff.py')],
   ['per-unit values against finite differences']),
 P('C25', 'Baseline comparisons combine the two systems correctly',
   '''A comparison metric evaluated on the merged statistics of two systems
   equals the comparison function applied to the separately evaluated metrics,
   for every metric (including different metrics for the two systems, and
   comparisons of comparisons), with statistics of the two systems never
   exchanged or shared. Only metrics present for both systems are compared, and
   by default only variables present in both. Every inference method's baseline
   comparison estimates that value, resampling both systems jointly, and
   refuses systems that were evaluated on different units.''',
   'inputs configurations', '''all metrics, pairs of evaluations, bins and
   comparison functions''',
   '''Tests compare one metric; exchanging the roles of the systems or losing a
   variable shows only for asymmetric data.''',
   ['statistical_inference/baseline_comparison.py'],
   [('BaselineComparison metrics and state merging', 'weatherbenchX/statistical_inference/baseline_comparison.py')],
   ['comparison metric values']),
 P('C26', 'Evaluation is pure: inputs unchanged and results repeatable',
   '''Computing statistics, aggregating and computing metric values does not
   modify the prediction, target, climatology or threshold data it is given,
   and repeating it, in any order and with objects reused or serialized in
   between, gives identical results. Statistics survive being sent to another
   process unchanged.''',
   'inputs histories configurations', '''all metrics, wrappers, bins and weights
   x repeated, interleaved and serialized use''',
   '''Tests use each object once; aliasing shows only on reuse.''',
   ['metrics/base.py', 'metrics/wrappers.py', 'aggregation.py', 'binning.py',
    'weighting.py'],
   [('compute of every statistic', 'weatherbenchX/metrics/'),
    ('Aggregator', 'weatherbenchX/aggregation.py')],
   ['inputs before and after', 'results of repeated evaluations']),
 P('C27', 'Combining benchmark result files loses and mixes nothing',
   '''Combining the per-year, per-region or per-model result files of the public
   benchmark yields every value of every input file under its own labels, once,
   whatever the order and coverage of the files; values absent from all files
   are missing. Unknown metric or region names are refused with nothing written;
   result files of models, years or modes that were not asked for are left out;
   the input files are never changed.''',
   'inputs configurations', '''all sets of result files (order, overlap, missing
   members, resolutions, variables)''',
   '''The script has few tests; every subset and order of files must work.''',
   ['public_benchmark/combine_results.py'],
   [('combine_results', 'public_benchmark/combine_results.py')],
   ['combined dataset']),
 P('C28', 'Structure mapping applies to every leaf and loses none',
   '''Mapping a function over nested structures of arrays calls it exactly once
   per leaf with the corresponding leaves of all structures and returns the
   same structure; datasets stay datasets when the results fit together and
   become plain mappings with unchanged results otherwise. Leaves for which
   nothing is returned are left out, and inputs are not modified.''',
   'inputs', '''all nestings of mappings, lists, tuples and datasets, numbers of
   structures, and leaf functions''',
   '''Tests map two small examples; conflicting coordinates and dropped leaves
   inside nested structures are not covered.''',
   ['xarray_tree.py'], [('map_structure', 'weatherbenchX/xarray_tree.py')],
   ['returned structure', 'calls of the mapped function']),
 P('C29', 'Loading is repeatable, splittable, and leaves its sources unchanged',
   '''What a data loader returns for a request depends only on the request and the
   stored data: it is what a fresh loader returns, whatever was requested before,
   in whatever order, after failed requests or after the loader was serialized;
   and the parts of a chunk loaded separately hold the same values and labels as
   the chunk loaded at once. Loading, interpolating and masking never modify
   what they were given: datasets, arrays kept by a user's loader, files,
   reference chunks, coordinates, elevations, option lists and request times.''',
   'histories', '''all loaders x stores x interpolations x options and all
   histories of requests''',
   '''Tests load one chunk with a new loader; state left behind by a request
   shows only in later requests, and changes of the sources only to whoever
   still holds them.''',
   ['data_loaders/', 'interpolations.py'],
   [('DataLoader.load_chunk', 'weatherbenchX/data_loaders/base.py'),
    ('XarrayDataLoader', 'weatherbenchX/data_loaders/xarray_loaders.py'),
    ('SparseObservationsFromParquet',
     'weatherbenchX/data_loaders/sparse_parquet.py'),
    ('Interpolation', 'weatherbenchX/interpolations.py')],
   ['loaded chunks', 'data handed to loaders and interpolations']),
 P('C30', 'The evaluation programs deliver the scores their command line describes',
   '''For every configured model and baseline (deterministic forecasts, ensembles,
   single members, persistence, climatology, probabilistic climatology), target,
   time window, lead times and chunk sizes, the benchmark program writes one file,
   named after the evaluation, which holds for every metric, variable, level,
   region (also land only) and lead time - and initialization, if temporal - the
   area-weighted score over exactly the requested initializations, as computed
   directly from the stored forecasts and observations; likewise the example
   program, with its aggregation state. Neither the layout of the stores (order
   of dimensions, levels and latitudes, names of dimensions) nor the chunking
   matters; points that a model leaves missing by configuration do not count.''',
   'inputs configurations', '''all configurations, command lines and stored
   layouts''',
   '''Tests never run the programs: the composition of loaders, chunks, metrics,
   masks, weights, regions, merging and output is only right if every part agrees
   on labels, masks and weights.''',
   ['public_benchmark/run_benchmark_evaluation.py',
    'evaluation_scripts/run_example_evaluation.py', 'weatherbenchX/aggregation.py',
    'weatherbenchX/beam_pipeline.py'],
   [('main', 'public_benchmark/run_benchmark_evaluation.py'),
    ('main', 'evaluation_scripts/run_example_evaluation.py'),
    ('define_pipeline', 'weatherbenchX/beam_pipeline.py'),
    ('Aggregator', 'weatherbenchX/aggregation.py')],
   ['output files of complete runs']),
]

TECH = {
 'C30': 'runtime monitoring: complete program runs over generated stores with an independent evaluation as oracle',
 'C29': 'runtime monitoring: request histories against fresh loaders, fingerprints of sources before/after every request',
 'C26': 'runtime monitoring: input fingerprints before/after every call, histories, threads and processes',
 'C20': 'runtime monitoring: crash and fault injection with a concurrent-reader atomicity monitor',
 'C03': 'runtime monitoring: conservation and equivalence monitor over pipeline executions',
 'C21': 'runtime monitoring: exactly-once monitor over written stores',
 'C02': 'runtime monitoring: merge-schedule exploration with an equivalence monitor',
}
DEFAULT_TECH = ('runtime monitoring: generated workloads on the real code with '
                'an independent oracle as online monitor')
NOTE = ('Every execution explored is judged by an oracle written independently '
        'of the code under test; minimum counts of observed events make a run '
        'that did not reach the behaviour inconclusive. Not exhaustive: reach '
        'comes from seeded generation. Trusts numpy/xarray arithmetic.')


def main():
  done = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'wbx/props'))
          if f.startswith('c') and f.endswith('.py')}
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
      f.write(json.dumps(p) + '\n')
  checks, na = [], []
  for p in PROPS:
    i = p['id']
    if i in done:
      checks.append({
          'property': i,
          'quick_cmd': f'./check.sh {i} quick',
          'thorough_cmd': f'./check.sh {i} thorough',
          'evidence_file': f'evidence/{i}.json',
          'technique': TECH.get(i, DEFAULT_TECH),
          'level': 'exploration', 'level_note': NOTE})
    else:
      na.append({'property': i, 'reason': 'check not built yet'})
  m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
       'not_applicable': na,
       'notes': 'All checks run the working tree of /repo in place with '
                '/opt/venv; nothing is compiled. See DESIGN.md.'}
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
  for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    for a in p['anchors']['files']:
      assert os.path.exists('/repo/' + a), a
  print(len(PROPS), 'properties', len(checks), 'checks')


if __name__ == '__main__':
  main()
