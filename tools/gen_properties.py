#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so that ids, texts and anchors stay in step)."""
import json, os
I = 'include/boost/accumulators/'
S = I + 'statistics/'
FW = I + 'framework/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe) or ['public extractors of an accumulator_set'], 'hook_needed': None}})


p('C01', 'Results do not depend on which features share a set or on their order',
  'A set computes, for every requested feature, the value that a set holding that feature alone would compute, whatever other features are requested with it and in whatever order they are listed (features that are variants of one another, such as two covariances with different variates or a lazy and an immediate mean, count as one: the first listed is the one held). '
  'Every statistic a feature depends on is present once, sees each sample exactly once, and is updated before whatever depends on it.',
  ['inputs', 'configurations'], 'every sample sequence (bounded length) and a family of feature lists and permutations of them',
  'The tests fix one listing order per feature and a few literal samples.',
  [FW + 'depends_on.hpp', FW + 'accumulator_set.hpp', FW + 'features.hpp'],
  [('build_acc_list / insert_feature / insert_dependencies', FW + 'depends_on.hpp'), ('accumulator_visitor', FW + 'accumulator_set.hpp')])
p('C02', 'Extracting results never changes later results',
  'Asking a set for any of its results, any number of times and at any points between samples, has no effect on any result reported afterwards. '
  'Two histories that push the same samples and differ only in what they extracted in between end with identical results.',
  ['inputs', 'histories'], 'every sample sequence and every placement of extractions between the samples (bounded length)',
  'Tests extract once, after the last sample; caching results make mid-stream extraction a separate history.',
  [S + 'tail.hpp', S + 'density.hpp', S + 'p_square_cumul_dist.hpp', S + 'peaks_over_threshold.hpp', S + 'median.hpp', S + 'tail_quantile.hpp'],
  [('is_dirty / is_sorted caches recomputed from accumulated state', S + 'density.hpp'), ('const result()', FW + 'accumulator_set.hpp')])
p('C03', 'Copies of a set are equal and independent',
  'A copy-constructed or assigned accumulator set reports the same results as its source at that moment, and from then on each of the two evolves only with the samples pushed into it, exactly as if it alone had received its whole history.',
  ['inputs', 'histories'], 'every sample sequence before and after the copy, either object continuing or being destroyed first',
  'The tests hardly copy sets; aliasing between copies needs a history after the copy.',
  [FW + 'accumulator_set.hpp', S + 'tail.hpp', S + 'rolling_window.hpp', FW + 'accumulators/reference_accumulator.hpp'],
  [('value semantics of every accumulator', FW + 'accumulator_base.hpp'), ('tail_impl copy constructor / assignment keeping indices', S + 'tail.hpp'), ('rolling_window_plus1_impl copy/assign', S + 'rolling_window.hpp')])
p('C04', 'Saving and loading a set is lossless',
  'For every feature that can be serialized, saving an accumulator set after any sample sequence and loading it into a freshly constructed set of the same type yields a set with the same results, and both continue identically on further samples.',
  ['inputs', 'histories', 'crash_points'], 'every sample sequence, with the save/load point anywhere in it',
  'The persistence tests reload once and compare one value; state needed only by later samples is not observed.',
  [FW + 'accumulator_set.hpp', S + 'count.hpp', S + 'variance.hpp', S + 'tail.hpp', S + 'density.hpp', S + 'extended_p_square.hpp'],
  [('serialize() of the set and of every accumulator', FW + 'accumulator_set.hpp')])
p('C05', 'Droppable statistics obey the documented reference-count rules',
  'A droppable statistic stops changing exactly when it and everything that depends on it have been dropped; until then it keeps being updated with every sample. '
  'A statistic that is requested without being droppable, or still needed by another undropped one, is never stopped, and a statistic brought in only as a dependency of droppable ones stops when its last user is dropped.',
  ['histories', 'configurations', 'inputs'], 'every interleaving (bounded) of samples and drops over a family of droppable/non-droppable feature combinations',
  'The tests drop in two or three fixed orders.',
  [FW + 'accumulators/droppable_accumulator.hpp', FW + 'accumulator_set.hpp', FW + 'depends_on.hpp'],
  [('reference counting', FW + 'accumulators/droppable_accumulator.hpp'), ('drop<Feature>() visiting the dependencies', FW + 'accumulator_set.hpp'), ('droppable<> feature transformation', FW + 'depends_on.hpp')])
p('C06', 'Externally held, referenced and value features behave like inline ones',
  'A set whose weight statistics, or other features, live in another accumulator set gives the same results as a set that holds them itself, provided both sets see the same stream. '
  'A referenced external variable is observed at its current value and a value feature at the value it was given.',
  ['inputs', 'histories', 'configurations'], 'every stream of samples and weights; sets with internal versus external weights',
  'The tests push one literal stream.',
  [FW + 'accumulators/external_accumulator.hpp', FW + 'external.hpp', FW + 'accumulators/reference_accumulator.hpp', FW + 'accumulators/value_accumulator.hpp'],
  [('external_impl forwarding the extraction', FW + 'accumulators/external_accumulator.hpp')])
p('C07', 'Non-scalar samples are processed componentwise',
  'When the samples are vectors, value arrays or complex numbers, each linear statistic (count, sum, mean, minimum, maximum, moment, variance, and their weighted and immediate forms, as far as the sample type offers the operations) equals, component by component, the statistic of the components.',
  ['inputs', 'configurations'], 'every sequence (bounded) of vector samples of every small dimension',
  'The tests use one dimension and a couple of literal vectors for a few features.',
  [I + 'numeric/functional/vector.hpp', I + 'numeric/functional/valarray.hpp', I + 'numeric/functional/complex.hpp', I + 'numeric/functional.hpp'],
  [('element-wise operator overloads and functors', I + 'numeric/functional/vector.hpp')])
p('C08', 'A feature named by modifier or in a weighted set is the documented variant',
  'Naming a feature with a modifier (lazy, immediate, kahan, linear, quadratic, with_density, with_p_square_quantile, with_p_square_cumulative_distribution, absolute, relative, with_threshold_value, with_threshold_probability), or naming an unweighted feature in a set that has a weight type, gives a set that reports on every stream exactly what a set holding the explicitly named variant reports. '
  'The common extractor of a family (sum, mean, variance, median, quantile, tail_mean, tail_variate_means, ...) returns the result of whichever variant the set holds.',
  ['inputs', 'configurations'], 'every documented modifier and weighted substitution, on every stream of bounded length',
  'Tests compare a handful of variants with literal numbers whose tolerances a neighbouring variant often meets as well.',
  [I + 'framework/depends_on.hpp', I + 'framework/extractor.hpp', S + 'variance.hpp', S + 'median.hpp', S + 'tail_variate_means.hpp', S + 'peaks_over_threshold.hpp', S + 'sum_kahan.hpp'],
  [('as_feature, as_weighted_feature, feature_of', I + 'framework/depends_on.hpp'), ('specialisations of as_feature, as_weighted_feature and feature_of', S + 'variance.hpp')])
p('C09', 'User-defined accumulators are built, fed, queried and dropped as documented',
  'Every accumulator in a set, including those a user defines, is constructed exactly once and updated exactly once per sample, always after the accumulators it depends on, and finds the positional and named arguments the user passed, in any order and number, as variables or as temporaries, and the enclosing set in its constructor, in its update, in its result and when dropped. '
  'on_drop runs once, when the accumulator really stops; a cached result keeps the value at the drop, also through copies; visit, visit_if, find_accumulator, extract_result and user-defined extractors and variants (feature_of, as_feature, as_weighted_feature) reach the accumulator that provides the feature; feeding through an algorithm by value or by reference equals feeding directly.',
  ['inputs', 'configurations', 'histories'], 'every mix of arguments of any value and every bounded history of samples and drops, for accumulators with dependencies requested in any order',
  'The tests have no accumulator that looks at its arguments at construction, at its dependencies, or at its drop.',
  [I + 'framework/accumulator_set.hpp', I + 'framework/depends_on.hpp', I + 'framework/extractor.hpp', I + 'framework/accumulators/droppable_accumulator.hpp', I + 'framework/accumulator_base.hpp'],
  [('accumulator_set constructors, operator(), visit, visit_if, extract, drop', I + 'framework/accumulator_set.hpp'), ('make_acc_list, collect_abstract_features', I + 'framework/depends_on.hpp'), ('droppable_accumulator_base, with_cached_result', I + 'framework/accumulators/droppable_accumulator.hpp')])
p('C10', 'Count, sum and mean are exact for every stream',
  'After any stream, count is the number of samples, sum is their sum starting from the given initial value, and mean, in its lazy and immediate forms, is the sum divided by the count as a real number even for integer samples. '
  'The same holds for the sums and means of weights and of auxiliary variates.',
  ['inputs', 'histories'], 'every sample sequence of bounded length, and (inductively, from an arbitrary consistent state) one further sample',
  'Tests push two to five literal values.',
  [S + 'count.hpp', S + 'sum.hpp', S + 'mean.hpp', I + 'numeric/functional.hpp'],
  [('count_impl, sum_impl, mean_impl, immediate_mean_impl', S + 'mean.hpp')])
p('C11', 'Minimum and maximum are the extreme samples',
  'After any non-empty stream of real or integer samples, minimum (maximum) is a value of the stream and no sample is below (above) it.',
  ['inputs', 'histories'], 'every sample sequence of bounded length, and one further sample from an arbitrary state',
  'Tests push ascending literals.',
  [S + 'min.hpp', S + 'max.hpp'], [('min_impl, max_impl', S + 'min.hpp')])
p('C12', 'Moments, variance, skewness and kurtosis match their definitions',
  'For every stream with at least one sample, the N-th moment is the average of N-th powers, variance (lazy and iterative forms alike) is the average squared deviation from the mean, and, where the variance is not zero, skewness and excess kurtosis are the standardised third and fourth central moments.',
  ['inputs', 'histories'], 'every sample sequence of bounded length; moments of every order up to a bound',
  'Tests use a handful of literals or random samples with loose tolerances.',
  [S + 'moment.hpp', S + 'variance.hpp', S + 'skewness.hpp', S + 'kurtosis.hpp'],
  [('moment_impl, lazy_variance_impl, variance_impl, skewness_impl, kurtosis_impl', S)])
p('C13', 'The error of a mean is the standard error',
  'For every stream of at least two samples the error of the mean, lazy and immediate, is the square root of the variance divided by the sample count minus one, and a value reported with its error pairs exactly that feature and that error.',
  ['inputs'], 'every sample sequence of bounded length', 'Tests use one literal stream with a loose tolerance.',
  [S + 'error_of_mean.hpp', S + 'error_of.hpp', S + 'with_error.hpp'], [('error_of_mean_impl', S + 'error_of_mean.hpp')])
p('C14', 'Covariance matches its definition',
  'For every stream of samples with an auxiliary variate, covariance is the average product of the deviations of sample and variate from their means; if one of the two is a vector it is taken componentwise, and if both are, of whatever dimensions, it is the matrix whose rows belong to the variate components and whose columns belong to the sample components.',
  ['inputs', 'configurations'], 'every stream of bounded length; scalar and small-dimension vector samples and variates',
  'Tests use literals and equal dimensions.',
  [S + 'covariance.hpp', S + 'weighted_covariance.hpp'], [('covariance_impl, outer_product', S + 'covariance.hpp')])
p('C15', 'Weighted statistics match their definitions',
  'For every stream of weighted samples whose total weight stays non-zero, weighted sum, mean, moment, variance, skewness, kurtosis and covariance (lazy and immediate forms) equal the weighted averages that define them; total weight and count are reported separately. '
  'Consequently unit weights reproduce the unweighted statistic, scaling all weights leaves normalised statistics unchanged, and an integer weight is the same as repeating the sample.',
  ['inputs', 'histories'], 'every stream of samples and positive weights of bounded length',
  'Tests use a few literals per feature.',
  [S + 'weighted_sum.hpp', S + 'weighted_mean.hpp', S + 'weighted_moment.hpp', S + 'weighted_variance.hpp', S + 'weighted_skewness.hpp', S + 'weighted_kurtosis.hpp', S + 'weighted_covariance.hpp'],
  [('weighted_*_impl', S)])
p('C16', 'Compensated sums keep the low-order bits',
  'The Kahan variants of sum and weighted sum (for samples, weights and variates) equal the exact sum in exact arithmetic and, in floating point, have an error that does not grow with the number of additions: adding many values too small to change a plain sum still accumulates them.',
  ['inputs', 'histories'], 'all floating point values of bounded magnitude for short streams',
  'The tests use one literal stream of ten million equal values.',
  [S + 'sum_kahan.hpp', S + 'weighted_sum_kahan.hpp'], [('sum_kahan_impl', S + 'sum_kahan.hpp')])
p('C17', 'The rolling window is exactly the most recent samples',
  'At every point of every stream, with a window of size W, the rolling window lists the last min(n, W) samples in order of arrival, the rolling count is min(n, W), and the rolling sum is the sum of exactly those samples.',
  ['inputs', 'histories', 'configurations'], 'every stream of bounded length for every small window size, observed after every sample',
  'The tests use one or two window sizes and literal samples.',
  [S + 'rolling_window.hpp', S + 'rolling_sum.hpp', S + 'rolling_count.hpp'],
  [('circular buffer with one extra slot', S + 'rolling_window.hpp'), ('rolling_sum_impl', S + 'rolling_sum.hpp')])
p('C18', 'Rolling mean, moment and variance describe the window',
  'At every point of every stream, the rolling mean and rolling N-th moment (lazy and immediate) are the averages over the current window, and the rolling variance (lazy and immediate) is its unbiased sample variance, zero for fewer than two samples.',
  ['inputs', 'histories', 'configurations'], 'every stream of bounded length for every small window size, observed after every sample',
  'The tests use one window size and literal samples.',
  [S + 'rolling_mean.hpp', S + 'rolling_moment.hpp', S + 'rolling_variance.hpp'],
  [('lazy_rolling_mean_impl, immediate_rolling_mean_impl, rolling_moment_impl, immediate_rolling_variance_impl', S)])
p('C19', 'A tail holds the extreme samples, ordered, with their own variates and weights',
  'With a cache of size C, the left (right) tail is the min(n, C) smallest (largest) samples of the stream, listed from the most extreme inwards, and the auxiliary variates and weights of a tail are those that arrived with the listed samples, in the same order.',
  ['inputs', 'histories', 'configurations'], 'every stream of bounded length (every relative order of the samples, ties included), every small cache size, observed after every sample',
  'The tests push one permutation.',
  [S + 'tail.hpp', S + 'tail_variate.hpp'], [('heap of indices, sorted lazily', S + 'tail.hpp'), ('assign() of variates and weights', S + 'tail_variate.hpp')])
p('C20', 'Tail quantile and tail means match their definitions',
  'Whenever the tail cache holds at least the required number of samples, the tail quantile is the order statistic whose rank is the sample count times the tail probability rounded up, the non-coherent tail mean is the average of that many most extreme samples, the coherent one adds the documented correction, and the tail variate means average the variates of those same samples. '
  'With fewer cached samples the result is NaN.',
  ['inputs', 'configurations'], 'every stream of bounded length, every tail probability, both tails, every small cache size',
  'The tests use large random streams and loose tolerances.',
  [S + 'tail_quantile.hpp', S + 'tail_mean.hpp', S + 'tail_variate_means.hpp'],
  [('tail_quantile_impl, non_coherent_tail_mean_impl, coherent_tail_mean_impl, tail_variate_means_impl', S)])
p('C21', 'Weighted tail statistics match their definitions',
  'With weighted samples, the tail quantile is the first sample, counted from the extreme end, at which the accumulated weight reaches the tail probability times the total weight; the tail mean and the tail variate means are the weighted averages over the samples up to that point. '
  'If the cached samples do not carry enough weight the result is NaN; the computation always terminates.',
  ['inputs', 'configurations'], 'every weighted stream of bounded length, both tails, every small cache size, a family of probabilities',
  'The tests use large random streams and loose tolerances.',
  [S + 'weighted_tail_quantile.hpp', S + 'weighted_tail_mean.hpp', S + 'weighted_tail_variate_means.hpp'],
  [('weighted_tail_quantile_impl, non_coherent_weighted_tail_mean_impl, weighted_tail_variate_means_impl', S)])
p('C22', 'Density histograms account for every sample',
  'Once the cache of the first samples is full, the density histogram has the requested number of equal bins spanning the range of the cached samples plus an underflow and an overflow bin, reports bin positions in order, and every sample (with its weight, if weighted) is counted in exactly the bin whose half-open interval contains it, so that the bins sum to one.',
  ['inputs', 'configurations'], 'every stream of bounded length (cached part and later part), small cache sizes and bin numbers',
  'The tests use random samples and compare a few bins loosely.',
  [S + 'density.hpp', S + 'weighted_density.hpp'], [('density_impl: cache, bin positions, lazily built histogram', S + 'density.hpp')])
p('C23', 'The P-square quantile follows the published algorithm within its invariants',
  'With five samples the estimate is their median element; afterwards marker heights stay sorted, the extreme markers are exactly the minimum and maximum, so every estimate lies between the smallest and largest sample, and each step equals the Jain-Chlamtac update with parabolic prediction where monotone and linear otherwise. '
  'Translating or positively scaling all samples translates or scales the estimate.',
  ['inputs', 'histories', 'configurations'], 'every stream of bounded length and every probability in a family (median variant included)',
  'The tests check convergence on random streams with loose tolerances.',
  [S + 'p_square_quantile.hpp', S + 'median.hpp'], [('p_square_quantile_impl', S + 'p_square_quantile.hpp')])
p('C24', 'The P-square cumulative distribution is a valid distribution over the samples',
  'With b cells, once b+1 samples have arrived the reported heights are non-decreasing, begin at the smallest and end at the largest sample, the reported probabilities are non-decreasing and end at one, and each update follows the published algorithm.',
  ['inputs', 'histories', 'configurations'], 'every stream of bounded length for small numbers of cells',
  'The tests compare with a normal distribution loosely.',
  [S + 'p_square_cumul_dist.hpp'], [('p_square_cumulative_distribution_impl', S + 'p_square_cumul_dist.hpp')])
p('C25', 'Extended P-square estimates and interpolated quantiles are consistent',
  'For any increasing list of probabilities, the extended estimator initialises its markers with the sorted first samples, keeps them sorted with the extremes equal to minimum and maximum, and updates them as published; the quantile for a requested probability is the marker itself when the probability is listed, otherwise the linear (or quadratic) interpolation between the neighbouring markers, and NaN outside the listed range.',
  ['inputs', 'histories', 'configurations'], 'every stream of bounded length, small probability lists, every requested probability',
  'The tests use uniform random streams and loose tolerances.',
  [S + 'extended_p_square.hpp', S + 'extended_p_square_quantile.hpp', S + 'times2_iterator.hpp'],
  [('extended_p_square_impl', S + 'extended_p_square.hpp'), ('extended_p_square_quantile_impl', S + 'extended_p_square_quantile.hpp')])
p('C26', 'Weighted P-square estimators reduce to the unweighted ones',
  'With all weights equal to one, the weighted P-square quantile, cumulative distribution and extended estimators report what the unweighted ones report; with arbitrary positive weights the same update runs with accumulated weights as marker positions (the first marker at the weight of the minimum, the last at the total weight), and the marker heights stay sorted between the smallest and largest sample.',
  ['inputs', 'histories', 'configurations'], 'every stream of bounded length; unit weights and families of non-unit weights',
  'The tests compare importance-sampled streams loosely.',
  [S + 'weighted_p_square_quantile.hpp', S + 'weighted_p_square_cumul_dist.hpp', S + 'weighted_extended_p_square.hpp'],
  [('weighted_p_square_quantile_impl and siblings', S)])
p('C27', 'Every median variant reports a median of what it estimates from',
  'The default median equals the P-square estimate at one half; the density-based median is the point at which the histogram accumulates half of the mass, by linear interpolation inside that bin (its lower end, if it is the overflow bin); the median from the cumulative distribution is the interpolated height at probability one half. '
  'Each, weighted or not, is recomputed correctly after further samples.',
  ['inputs', 'histories'], 'every stream of bounded length, extraction after every sample',
  'The tests extract once and compare with a loose tolerance.',
  [S + 'median.hpp', S + 'weighted_median.hpp'], [('median_impl, with_density_median_impl, with_p_square_cumulative_distribution_median_impl', S + 'median.hpp')])
p('C28', 'Peaks over threshold fits exactly the samples beyond the threshold',
  'With a threshold value, the fitted parameters are the documented functions of the threshold, the mean and the variance of exactly the samples beyond it and of their fraction; with a threshold probability, the threshold is the corresponding order statistic. '
  'The tail quantile and tail mean derived from the fit are the documented functions of those parameters, for both tails, weighted or not.',
  ['inputs', 'histories'], 'every stream of bounded length, both tails',
  'The tests use large random streams and loose tolerances.',
  [S + 'peaks_over_threshold.hpp', S + 'weighted_peaks_over_threshold.hpp', S + 'pot_quantile.hpp', S + 'pot_tail_mean.hpp'],
  [('peaks_over_threshold_impl, peaks_over_threshold_prob_impl, pot_quantile_impl, pot_tail_mean_impl', S)])
p('C29', 'The numeric operators mean the same for every operand type',
  'The numeric operations the library offers to accumulators (arithmetic, floating division, min/max assignment, comparisons, conversion to default/zero/one/smallest/largest values, promotion) compute, for built-in numbers, complex numbers, vectors and value arrays and for mixtures of them with scalars, the mathematically expected element-wise result; the floating division of an integer, or of an array of integers, by an integer never truncates.',
  ['inputs', 'configurations'], 'all operand values within bounds over a family of operand type combinations',
  'The tests evaluate one literal per operator.',
  [I + 'numeric/functional.hpp', I + 'numeric/functional/vector.hpp', I + 'numeric/functional/valarray.hpp', I + 'numeric/functional/complex.hpp'],
  [('op::* functors and functional::*_base', I + 'numeric/functional.hpp')])
p('C30', 'No valid use reads or writes outside live, initialised memory',
  'Any sequence of sample pushes, extractions, copies, saves and drops that respects the documented preconditions, including extraction before any sample and with fewer samples than a cache can hold, performs no out-of-bounds or use-after-free access, reads no uninitialised value, divides no integer by zero, terminates, and raises no assertion.',
  ['inputs', 'histories', 'configurations'], 'every stream of bounded length over all features, small cache and window sizes',
  'Tests run without memory checking on streams that are long enough.',
  [S, FW + 'accumulator_set.hpp'], [('bounds kept by construction', S)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
