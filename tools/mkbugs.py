import os, subprocess, json, sys
I='include/boost/accumulators/'
B=[]
def bug(id, prop, edits, needs, breaks, demo):
    B.append((id,prop,edits,needs,breaks,demo))
S=I+'statistics/'; FW=I+'framework/'
HDR='''#include <sstream>
#include <stdexcept>
#include <cstdio>
#include <cmath>
#include <vector>
#include <boost/accumulators/accumulators.hpp>
%s
using namespace boost::accumulators;
static int bad = 0;
template<typename R> double at(R const &r, int i) { typename R::const_iterator b = r.begin(); while (i-- > 0) ++b; return *b; }
static void near(double a, double b, char const *what) { if (!(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)))) { std::printf("%%s: got %%.17g, expected %%.17g\\n", what, a, b); bad = 1; } }
int main() {
%s
return bad; }
'''
def H(*h): return '\n'.join('#include <boost/accumulators/statistics/%s.hpp>'%x for x in ('stats','count','sum')+h)
def D(h, body): return HDR%(H(*h), body)

bug('b02-density-first-dirty','C02',[(S+'density.hpp','            this->is_dirty = true;\n\n            std::size_t cnt = count(args);\n',
 '            std::size_t cnt = count(args);\n\n            // the histogram changes once the bins are known\n            if (cnt <= this->cache_size) this->is_dirty = true;\n')],
 'a histogram extracted, further samples pushed after the cache is full, and the histogram extracted again',
 'the second histogram is the stale first one: what was extracted before decides what is reported later',
 D(['density'],'''accumulator_set<double, stats<tag::density> > a(tag::density::num_bins = 2, tag::density::cache_size = 2), b(a);
a(0); a(1); b(0); b(1); density(a); a(5); a(6); b(5); b(6);
for (int i = 0; i < 4; ++i) near(density(a)[i].second, density(b)[i].second, "bin");'''))
bug('b03-tail-copy-unsorted','C03',[(S+'tail.hpp','          : is_sorted(that.is_sorted)\n          , indices(that.indices)\n          , samples(that.samples)\n        {\n',
 '          : is_sorted(true)\n          , indices(that.indices)\n          , samples(that.samples)\n        {\n')],
 'copying a set whose tail has not been extracted since its last sample, in an order in which the heap is not sorted',
 'the copy lists its tail unsorted until the next sample enters the tail',
 D(['tail'],'''typedef accumulator_set<double, stats<tag::tail<right> > > set;
set a(tag::tail<right>::cache_size = 4); double x[] = { 3, 1, 4, 2 };
for (int i = 0; i < 4; ++i) a(x[i]);
set b(a); double e = 4; for (int i = 0; i < 4; ++i) near(at(tail(b), i), e - i, "tail");'''))
bug('b04-p-square-serialize','C04',[(S+'p_square_quantile.hpp','            ar & desired_positions;\n','')],
 'a p_square_quantile set saved after more than five samples, loaded, and continued with samples until a marker moves',
 'the desired marker positions are reset by loading, so the loaded set drifts from the saved one',
 '''#include <sstream>
#include <stdexcept>
#include <boost/array.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/serialization/boost_array.hpp>
'''+D(['p_square_quantile'],'''accumulator_set<double, stats<tag::p_square_quantile> > a(quantile_probability = 0.3), b(quantile_probability = 0.3);
double x[] = { 1, 7, 3, 9, 5, 2, 8, 4, 6, 0, 11, 13 }; for (int i = 0; i < 12; ++i) a(x[i]);
std::stringstream s; { boost::archive::text_oarchive o(s); a.serialize(o, 0); } { boost::archive::text_iarchive p(s); b.serialize(p, 0); }
for (int i = 0; i < 12; ++i) { a(x[i] + .5); b(x[i] + .5); } near(p_square_quantile(b), p_square_quantile(a), "quantile");'''))
bug('b08-p-square-cell','C23',[(S+'p_square_quantile.hpp','(d <= float_type(-1.) && dm < float_type(-1.))','(d < float_type(-1.) && dm < float_type(-1.))')],
 'a probability such that a desired position is exactly one below the actual one (1/2 with an even number of samples)',
 'the marker is not moved at an offset of exactly one',
 D(['p_square_quantile'],'''accumulator_set<double, stats<tag::p_square_quantile> > a(quantile_probability = 0.5);
double x[] = { 1, 2, 4, 8, 16, 0, -1 }; for (int i = 0; i < 7; ++i) a(x[i]);
/* positions 1 4 5 6 7 after the second push; marker 2 is desired at 4 and must move down by the parabolic formula */
near(p_square_quantile(a), 1.5, "median");'''))
bug('b09-ext-quantile-edge','C25',[(S+'extended_p_square_quantile.hpp','                    if ( (dist == 1 || *iter_probs - this->probability <= this->probability - *(iter_probs - 1) ) && dist != this->probabilities.size() - 1 )',
 '                    if ( *iter_probs - this->probability <= this->probability - *(iter_probs - 1) ? dist != this->probabilities.size() - 1 : dist < 2 && this->probabilities.size() > 3 )')],
 'quadratic interpolation with exactly three listed probabilities and a requested one in the lower half of the first interval',
 'reads before the first marker (garbage quantile)',
 D(['extended_p_square_quantile'],'''std::vector<double> p; p.push_back(.2); p.push_back(.5); p.push_back(.8);
accumulator_set<double, stats<tag::extended_p_square_quantile_quadratic> > a(extended_p_square_probabilities = p);
for (int i = 0; i < 9; ++i) a(double((i * 4) % 9)); near(quantile(a, quantile_probability = .25), 7. / 3, "quantile");
// markers of nine equidistant samples lie on a line
p.push_back(.9); accumulator_set<double, stats<tag::extended_p_square_quantile_quadratic> > b(extended_p_square_probabilities = p);'''))
bug('b12-pot-threshold-tie','C28',[(S+'weighted_peaks_over_threshold.hpp','            if (this->sign_ * args[sample] > this->threshold_)','            if (this->sign_ * args[sample] >= this->threshold_)')],
 'a sample exactly at the threshold', 'a sample at the threshold is fitted as if it were beyond it',
 D(['weighted_peaks_over_threshold'],'''typedef accumulator_set<double, stats<tag::weighted_peaks_over_threshold<right> >, double> set;
set a(tag::weighted_peaks_over_threshold<right>::threshold_value = 2.), b(a);
double x[] = { 1, 3, 4, 7 }; for (int i = 0; i < 4; ++i) { a(x[i], weight = 1.); b(x[i], weight = 1.); }
a(2., weight = 1.); b(1.5, weight = 1.);
near(weighted_peaks_over_threshold(a).get<2>(), weighted_peaks_over_threshold(b).get<2>(), "xi");'''))
bug('b13-rolling-count-full','C17',[(S+'rolling_count.hpp','return static_cast<std::size_t>(rolling_window_plus1(args).size()) - is_rolling_window_plus1_full(args);',
 'std::size_t n = static_cast<std::size_t>(rolling_window_plus1(args).size());\n            return n > 2 ? n - is_rolling_window_plus1_full(args) : n;')],
 'a window of size one and at least two samples', 'the rolling count (and mean) of a window of one sample is that of two',
 D(['rolling_count'],'''accumulator_set<double, stats<tag::rolling_count> > a(tag::rolling_window::window_size = 1); a(1); a(2); near(rolling_count(a), 1, "count");'''))
bug('b14-rolling-mean-equal','C18',[(S+'rolling_mean.hpp','else if (rolling_window_plus1(args).front() < args[sample])\n                  mean_','else if (rolling_window_plus1(args).front() < args[sample] && mean_ != args[sample])\n                  mean_')],
 'a full window and a new sample that exceeds the one leaving and equals the current mean',
 'the immediate rolling mean ignores the exchange of samples',
 D(['rolling_mean'],'''accumulator_set<double, stats<tag::immediate_rolling_mean> > a(tag::rolling_window::window_size = 2); a(1); a(3); a(2); near(rolling_mean(a), 2.5, "mean");'''))
bug('b17-weighted-psq-ties','C26',[(S+'weighted_p_square_quantile.hpp','                        std::swap(this->actual_positions[pos], this->actual_positions[pos + d]);\n','                        std::rotate(this->actual_positions.begin() + pos, this->actual_positions.begin() + pos + d, this->actual_positions.begin() + pos + d + 1);\n')],
 'the five first samples in an order in which sorting by swaps and by rotations differ, with unequal weights',
 'markers start at positions computed from the weights of other samples',
 D(['weighted_p_square_quantile'],'''double x[] = { 5, 4, 1, 2, 3, 6, 7, 8, 2.5, 3.5 }, w[] = { 5, 1, 2, 9, 3, 2, 4, 6, 1, 2 }, y[] = { 1, 2, 3, 4, 5 }, v[] = { 2, 9, 3, 1, 5 };
typedef accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> set; set a(quantile_probability = .5), b(quantile_probability = .5);
for (int i = 0; i < 10; ++i) { a(x[i], weight = w[i]); b(i < 5 ? y[i] : x[i], weight = i < 5 ? v[i] : w[i]); }
near(weighted_p_square_quantile(a), weighted_p_square_quantile(b), "order of the first five");'''))
bug('b19-tail-mean-first','C20',[(S+'tail_mean.hpp','numeric::fdiv(\n                    std::accumulate(\n                        tail(args).begin()\n                      , tail(args).begin() + n','numeric::fdiv(\n                    std::accumulate(\n                        tail(args).begin()\n                      , tail(args).begin() + (n < cnt ? n : n - 1)')],
 'a tail probability that takes in the whole stream, all of it cached', 'the tail mean leaves out the last sample of the stream',
 D(['tail_mean'],'''accumulator_set<double, stats<tag::non_coherent_tail_mean<left> > > a(tag::tail<left>::cache_size = 4); for (int i = 1; i <= 4; ++i) a(i);
near(non_coherent_tail_mean(a, quantile_probability = 1.), 2.5, "mean"); near(non_coherent_tail_mean(a, quantile_probability = .5), 1.5, "mean");'''))
bug('b15-skewness-sign','C12',[(S+'kurtosis.hpp','- 3. * mean(args) * mean(args) * mean(args) * mean(args)\n','- 3. * mean(args) * mean(args) * mean(args) * std::abs(mean(args))\n')],
 'a negative mean', 'kurtosis of samples with a negative mean is wrong',
 D(['kurtosis'],'''accumulator_set<double, stats<tag::kurtosis> > a, b; double x[] = { -1, -2, -4, -9 }; for (int i = 0; i < 4; ++i) { a(x[i]); b(-x[i]); }
near(kurtosis(a), kurtosis(b), "kurtosis");'''))

bug('b20-copy-refcount','C05',[(FW+'accumulators/droppable_accumulator.hpp','          , ref_count_(that.ref_count_)','          , ref_count_(that.ref_count_ != 0)')],
 'a statistic shared by several droppable features, a copy of the set, and a drop of one of the features in the copy',
 'in the copy the shared statistic stops although features that need it are still there',
 D(['mean'],"""typedef accumulator_set<double, features<droppable<tag::mean>, droppable<tag::count> > > set;
set a; a(1); a(2); set b(a); a.drop<tag::count>(); b.drop<tag::count>(); a(6); b(6); near(mean(b), 3, "mean in the copy"); near(mean(a), 3, "mean");"""))
bug('b21-cached-result-copy','C09',[(FW+'accumulators/droppable_accumulator.hpp','            if(that.has_result())\n            {\n                this->set(that.get());','            if(is_class<result_type>::value && that.has_result())\n            {\n                this->set(that.get());')],
 'a droppable accumulator with a cached scalar result, dropped, and its set copied',
 'the copy reports memory nobody wrote instead of the result remembered at the drop',
 D(['mean'],"""using boost::accumulators::tag::kept; typedef accumulator_set<double, features<tag::sum, tag::count, droppable<kept> > > set;
set *a = new set; (*a)(1); (*a)(2); a->drop<kept>(); void *m = ::operator new(sizeof(set)); for (unsigned i = 0; i < sizeof(set); ++i) ((char *)m)[i] = 0x41;
set *b = new(m) set(*a); (*a)(10); (*b)(10); near(extract_result<kept>(*b), 3, "remembered");""").replace('static int bad','struct kept_impl : accumulator_base { typedef double result_type; kept_impl(dont_care) {} template<typename A> double result(A const &a) const { return sum(a[accumulator]); } };\nnamespace boost { namespace accumulators { namespace tag { struct kept : depends_on<sum> { typedef mpl::always<kept_impl> impl; }; }\ntemplate<> struct droppable_accumulator<kept_impl> : droppable_accumulator_base<with_cached_result<kept_impl> > { template<typename A> droppable_accumulator(A const &a) : droppable_accumulator::base(a) {} }; } }\nstatic int bad',1))
bug('b22-sum-of-longs','C10',[(S+'sum.hpp','    private:\n        Sample sum;','    private:\n        typename mpl::if_<is_same<Sample, long>, double, Sample>::type sum;')],
 'long samples whose sum needs more than 53 bits',
 'the sum of integers is rounded',
 D([],"""accumulator_set<long, stats<tag::sum> > a; a(1L << 60); a(1); if (sum(a) != (1L << 60) + 1) { std::printf("sum %ld\\n", sum(a)); bad = 1; }"""))
bug('b23-max-negative','C11',[(I+'numeric/functional.hpp','return -(std::numeric_limits<typename remove_const<Arg>::type>::max)();','return is_same<typename remove_const<Arg>::type, float>::value ? (std::numeric_limits<typename remove_const<Arg>::type>::min)() : -(std::numeric_limits<typename remove_const<Arg>::type>::max)();')],
 'float samples that are all negative',
 'the maximum of negative floats is a tiny positive number',
 D(['max'],"""accumulator_set<float, stats<tag::max> > a; a(-3.f); a(-2.f); near(max(a), -2, "max");"""))
bug('b24-covariance-transposed','C14',[(S+'covariance.hpp','result(i,j) = numeric::multiplies(left[i], right[j]);','(left_size == right_size && left_size > 2 ? result(j,i) : result(i,j)) = numeric::multiplies(left[i], right[j]);')],
 'vector samples and vector variates of the same dimension, above two, with an asymmetric covariance',
 'the covariance matrix comes out transposed',
 '#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT\n'+D(['covariance','variates/covariate'],"""typedef std::vector<double> V; accumulator_set<V, stats<tag::covariance<V, tag::covariate1> > > a(sample = V(3), covariate1 = V(3));
double x[3][3] = { { 1, 0, 2 }, { 2, 5, 3 }, { 4, 1, 9 } }, y[3][3] = { { 3, 1, 0 }, { 0, 2, 6 }, { 7, 7, 1 } };
double mx[3] = { 0, 0, 0 }, my[3] = { 0, 0, 0 }; for (int k = 0; k < 3; ++k) { a(V(x[k], x[k] + 3), covariate1 = V(y[k], y[k] + 3)); for (int i = 0; i < 3; ++i) { mx[i] += x[k][i] / 3; my[i] += y[k][i] / 3; } }
for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double c = 0; for (int k = 0; k < 3; ++k) c += (y[k][i] - my[i]) * (x[k][j] - mx[j]) / 3; near(covariance(a)(i, j), c, "covariance"); }"""))
bug('b25-tail-sorted-full','C19',[(S+'tail.hpp','            this->is_sorted = false;\n            // Tell','            if(index + 1 == this->indices.size()) this->is_sorted = false;\n            // Tell')],
 'a full tail extracted, then a sample that replaces one stored in an early slot, then the tail extracted again',
 'the tail is listed out of order',
 D(['tail'],"""typedef accumulator_set<double, stats<tag::tail<right> > > set; set a(tag::tail<right>::cache_size = 3); double x[] = { 1, 5, 3 };
for (int i = 0; i < 3; ++i) a(x[i]); tail(a); a(4); near(at(tail(a), 0), 5, "tail"); near(at(tail(a), 1), 4, "tail"); near(at(tail(a), 2), 3, "tail"); a(9); near(at(tail(a), 0), 9, "tail"); near(at(tail(a), 1), 5, "tail");"""))
bug('b26-tail-quantile-exact','C20',[(S+'tail_quantile.hpp','std::ceil(','1 + std::floor(')],
 'a quantile probability whose product with the count is a whole number',
 'the quantile is the next order statistic',
 D(['tail','tail_quantile'],"""accumulator_set<double, stats<tag::tail_quantile<left> > > a(tag::tail<left>::cache_size = 8); for (int i = 1; i <= 8; ++i) a(i);
near(quantile(a, quantile_probability = 0.25), 2, "quantile"); near(quantile(a, quantile_probability = 0.5), 4, "quantile");"""))
bug('b27-weighted-variate-means','C21',[(S+'weighted_tail_variate_means.hpp','while (sum < threshold)','while (sum <= threshold)')],
 'weights that add up to the threshold exactly',
 'one variate too many enters the weighted tail variate means',
 '#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT\n'+D(['tail','tail_variate','weighted_tail_mean','weighted_tail_variate_means','variates/covariate'],"""typedef std::vector<double> V; typedef tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1> F;
accumulator_set<double, stats<F>, double> a(tag::tail<right>::cache_size = 4); for (int i = 1; i <= 4; ++i) { V v(1, i * i); a(double(i), weight = 1., covariate1 = v); }
near(*extract_result<F>(a, quantile_probability = 0.5).begin(), (16 + 9) / 2., "mean");"""))
bug('b28-density-lower-edge','C22',[(S+'density.hpp','if (args[sample] < this->bin_positions[1])','if (args[sample] <= this->bin_positions[1])')],
 'a sample after the cache is full that equals the smallest cached one',
 'it is counted as an underflow',
 D(['density'],"""accumulator_set<double, stats<tag::density> > a(tag::density::num_bins = 2, tag::density::cache_size = 2); a(0); a(2); a(0); near(density(a)[0].second, 0, "underflow"); near(density(a)[1].second, 2 / 3., "first bin");"""))
bug('b29-cdist-top-tie','C24',[(S+'p_square_cumul_dist.hpp','this->heights[b] <= args[sample]','this->heights[b] < args[sample]')],
 'a sample equal to the largest so far, after the markers are set',
 'the cell search runs past the markers and the counts of the distribution go wrong',
 D(['p_square_cumulative_distribution'] if 0 else ['p_square_cumul_dist'],"""accumulator_set<double, stats<tag::p_square_cumulative_distribution> > a(tag::p_square_cumulative_distribution::num_cells = 2), b(a);
double x[] = { 1, 2, 3, 4, 5 }; for (int i = 0; i < 5; ++i) { a(x[i]); b(x[i] ); }
for (int k = 0; k < 4; ++k) { a(5); b(5 + 1e-13 * (k + 1)); } for (int i = 0; i <= 2; ++i) { near(at_(p_square_cumulative_distribution(a), i).first, at_(p_square_cumulative_distribution(b), i).first, "height"); near(at_(p_square_cumulative_distribution(a), i).second, at_(p_square_cumulative_distribution(b), i).second, "probability"); }""").replace('static void near','template<typename R> typename R::value_type at_(R const &r, int i) { typename R::const_iterator b = r.begin(); while (i-- > 0) ++b; return *b; }\nstatic void near',1))
bug('b30-weighted-ext-minimum','C26',[(S+'weighted_extended_p_square.hpp','                    this->actual_positions[0] = args[weight];\n','                    this->actual_positions[0] = (std::max)(this->actual_positions[0], float_type(args[weight]));\n')],
 'samples with unequal weights, and a new smallest sample that is lighter than the smallest before',
 'the first marker keeps the weight of the sample that was the smallest before, and other markers move when they should not',
 D(['weighted_extended_p_square'],"""double pr[] = { 0.5 }; std::vector<double> p(pr, pr + 1); accumulator_set<double, stats<tag::weighted_extended_p_square>, double> a(tag::weighted_extended_p_square::probabilities = p);
// every marker is where it should be before and after the lighter minimum, so none moves
double w[] = { 3, 1, 4, 4, 4 }; for (int i = 0; i < 5; ++i) a(10. * i, weight = w[i]); a(-1., weight = 0.5); near(at(weighted_extended_p_square(a), 0), 20, "median marker");"""))
bug('b31-median-dirty','C27',[(S+'median.hpp','          , is_dirty(true)\n        {\n        }\n\n        void operator ()(dont_care)\n        {\n            this->is_dirty = true;','          , is_dirty(true)\n        {\n        }\n\n        template<typename Args>\n        void operator ()(Args const &args)\n        {\n            this->is_dirty = this->is_dirty || this->median != args[sample];')],
 'a sample that equals the median extracted last',
 'the density median is not recomputed',
 D(['density','median'],"""accumulator_set<double, stats<tag::with_density_median> > a(tag::density::num_bins = 3, tag::density::cache_size = 4), b(a); double x[] = { 0, 0, 2, 6 };
for (int i = 0; i < 4; ++i) { a(x[i]); b(x[i]); } for (int i = 0; i < 3; ++i) { double m = with_density_median(a); a(m); b(m); near(with_density_median(a), (with_density_median)(accumulator_set<double, stats<tag::with_density_median> >(b)), "median"); }"""))
bug('b32-pot-accumulates','C28',[(S+'peaks_over_threshold.hpp','                this->sigma2_ = float_type(0);\n\n                std::size_t cnt','                std::size_t cnt')],
 'a fit with threshold probability extracted, further samples, and the fit extracted again',
 'the second fit includes the squares of the first',
 D(['tail','peaks_over_threshold'],"""typedef accumulator_set<double, stats<tag::peaks_over_threshold<right>(with_threshold_probability)> > set; set a(tag::tail<right>::cache_size = 20, pot_threshold_probability = 0.5), b(tag::tail<right>::cache_size = 20, pot_threshold_probability = 0.5);
for (int i = 0; i < 12; ++i) { a(i * i); b(i * i); if (i == 9) peaks_over_threshold(a); } near(peaks_over_threshold(a).get<2>(), peaks_over_threshold(b).get<2>(), "xi");"""))
bug('b33-window-load-capacity','C04',[(S+'rolling_window.hpp','    b.set_capacity(capacity);','    if (capacity > b.capacity()) b.set_capacity(capacity);')],
 'loading a rolling window into a set that was built with a larger window',
 'the loaded set keeps its own window size',
 """#include <sstream>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
"""+D(['rolling_mean'],"""accumulator_set<double, stats<tag::rolling_mean> > a(tag::rolling_window::window_size = 2), b(tag::rolling_window::window_size = 5); for (int i = 0; i < 6; ++i) a(i * i);
std::stringstream s; { boost::archive::text_oarchive o(s); a.serialize(o, 0); } { boost::archive::text_iarchive p(s); b.serialize(p, 0); }
for (int i = 0; i < 4; ++i) { a(i); b(i); } near(rolling_mean(b), rolling_mean(a), "rolling mean");"""))
bug('b35-vector-sum-lanes','C07',[(I+'numeric/functional/vector.hpp','            for(std::size_t i = 0, size = left.size(); i != size; ++i)\n            {\n                numeric::plus_assign(left[i], right[i]);\n            }\n            return left;',
 '            std::size_t i = 0, size = left.size();\n            for(; i + 4 <= size; i += 4)\n            {\n                numeric::plus_assign(left[i], right[i]);\n                numeric::plus_assign(left[i + 1], right[i + 1]);\n                numeric::plus_assign(left[i + 2], right[i + 2]);\n                numeric::plus_assign(left[i + 3], right[i + 3]);\n            }\n            for(; i != size && size < 8; ++i)\n            {\n                numeric::plus_assign(left[i], right[i]);\n            }\n            return left;')],
 'vector samples of dimension 9, 10, 11, 13, ...: above eight and not a multiple of four',
 'the last components of the sum are not accumulated',
 '#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT\n'+D(['mean'],"""typedef std::vector<double> V; accumulator_set<V, stats<tag::sum> > a(sample = V(9)); a(V(9, 1.)); a(V(9, 2.)); for (int i = 0; i < 9; ++i) near(sum(a)[i], 3, "component");"""))
bug('b36-weighted-quadratic','C08',[(S+'extended_p_square_quantile.hpp','struct as_feature<tag::weighted_extended_p_square_quantile(quadratic)>\n{\n    typedef tag::weighted_extended_p_square_quantile_quadratic type;','struct as_feature<tag::weighted_extended_p_square_quantile(quadratic)>\n{\n    typedef tag::weighted_extended_p_square_quantile type;')],
 'weighted_extended_p_square_quantile(quadratic) requested by that name',
 'the quantile is interpolated linearly',
 D(['extended_p_square_quantile','weighted_extended_p_square'],"""double pr[] = { 0.25, 0.5, 0.75 }; std::vector<double> p(pr, pr + 3); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile(quadratic)>, double> a(tag::weighted_extended_p_square::probabilities = p);
accumulator_set<double, stats<tag::weighted_extended_p_square_quantile_quadratic>, double> b(tag::weighted_extended_p_square::probabilities = p);
for (int i = 0; i < 40; ++i) { double x = (i * i * 7) % 31; a(x, weight = 1.); b(x, weight = 1.); } near(quantile(a, quantile_probability = 0.4), quantile(b, quantile_probability = 0.4), "quantile");"""))
bug('b37-rolling-moment-one','C18',[(S+'rolling_moment.hpp','            if(is_rolling_window_plus1_full(args))','            if(is_rolling_window_plus1_full(args) && rolling_window_plus1(args).size() > 2)')],
 'a window of one sample',
 'the rolling moment keeps adding instead of forgetting the sample that left',
 D(['rolling_moment'],"""accumulator_set<double, stats<tag::rolling_moment<2> > > a(tag::rolling_window::window_size = 1); a(2); a(3); near(rolling_moment<2>(a), 9, "moment");"""))
bug('b38-error-short-count','C13',[(S+'error_of_mean.hpp','            return sqrt(numeric::fdiv(variance(args), count(args) - 1));','            unsigned short const degrees = static_cast<unsigned short>(count(args) - 1);\n            return sqrt(numeric::fdiv(variance(args), degrees));')],
 'a stream of more than 65536 samples',
 'the standard error is taken from the count modulo 65536',
 D(['variance','error_of','error_of_mean'],"""accumulator_set<double, stats<tag::error_of<tag::mean>, tag::lazy_variance, tag::count> > a; for (int i = 0; i < 70000; ++i) a(i % 7);
near(error_of<tag::mean>(a), std::sqrt(lazy_variance(a) / (count(a) - 1.)), "error");"""))
bug('b39-weighted-variance-light','C15',[(S+'weighted_variance.hpp','            if(cnt > 1)\n            {\n                extractor<MeanFeature> const some_mean = {};','            if(cnt > 1 && sum_of_weights(args) > args[weight])\n            {\n                extractor<MeanFeature> const some_mean = {};')],
 'an immediate weighted variance with weights that are not all positive',
 'samples that arrive while the total weight is below the weight of the sample are ignored',
 D(['weighted_variance'],"""accumulator_set<double, stats<tag::weighted_variance, tag::lazy_weighted_variance>, double> a; a(1, weight = -1.); a(3, weight = -2.); a(4, weight = -3.);
accumulator_set<double, stats<tag::lazy_weighted_variance>, double> b; b(1, weight = -1.); b(3, weight = -2.); b(4, weight = -3.); near(weighted_variance(a), lazy_weighted_variance(b), "variance");"""))
bug('b40-kahan-weights-type','C16',[(S+'sum_kahan.hpp','accumulators::impl::sum_kahan_impl<mpl::_2, tag::weight> impl;','accumulators::impl::sum_kahan_impl<mpl::_1, tag::weight> impl;')],
 'a compensated sum of weights in a set whose sample type is narrower than its weight type',
 'the weights are summed in the sample type',
 D(['sum_kahan'],"""accumulator_set<float, stats<tag::sum_of_weights_kahan>, double> a; for (int i = 0; i < 4; ++i) a(1.f, weight = 0.1); near(sum_of_weights_kahan(a), 0.4, "sum of weights");"""))
bug('b41-fdiv-wide','C29',[(I+'numeric/functional.hpp','          : mpl::and_<is_integral<A0>, is_integral<A1> >\n','          : mpl::and_<is_integral<A0>, is_integral<A1>, mpl::bool_<(sizeof(A0) <= sizeof(A1))> >\n'),(I+'numeric/functional.hpp','#include <boost/mpl/and.hpp>\n','#include <boost/mpl/and.hpp>\n#include <boost/mpl/bool.hpp>\n')],
 'the floating division of a long by an int or a short, as in a weighted mean of longs with int weights',
 'the quotient is truncated',
 D(['weighted_mean'],"""near(boost::numeric::fdiv(7L, 2), 3.5, "fdiv"); accumulator_set<long, stats<tag::mean>, int> a; a(7, weight = 1); a(8, weight = 1); near(mean(a), 7.5, "mean");"""))
bug('b43-cached-copy-live','C09',[(FW+'accumulators/droppable_accumulator.hpp','            if(that.has_result())\n            {\n                this->set(that.get());\n            }','            if(that.has_result())\n            {\n                std::memcpy(this->cache.address(), that.cache.address(), sizeof(result_type));\n            }'),
  (FW+'accumulators/droppable_accumulator.hpp','#include <new>\n','#include <cstring>\n#include <new>\n')],
 'a copy of a set in which a statistic with a remembered result that owns memory was dropped',
 'the copy shares the remembered result with its source and destroys it a second time',
 """#include <stdexcept>
#include <cstdio>
#include <memory>
#include <boost/accumulators/accumulators.hpp>
using namespace boost::accumulators;
typedef std::shared_ptr<int> P;
struct keep : accumulator_base { typedef P result_type; keep(dont_care) : p(new int(7)) {} void operator()(dont_care) {} P result(dont_care) const { return p; } P p; };
namespace t { struct keep : depends_on<> { struct impl { template<typename, typename> struct apply { typedef ::keep type; }; }; }; }
namespace boost { namespace accumulators { template<> struct droppable_accumulator< ::keep> : droppable_accumulator_base<with_cached_result< ::keep> > { template<typename A> droppable_accumulator(A const &a) : droppable_accumulator::base(a) {} droppable_accumulator(droppable_accumulator const &a) : droppable_accumulator::base(*static_cast<typename droppable_accumulator::base const *>(&a)) {} }; } }
int main() { typedef accumulator_set<int, features<droppable<t::keep> > > set; set a; a(1); a.drop<t::keep>(); P p = extract_result<t::keep>(a); long before = p.use_count(); { set b(a); if (p.use_count() <= before) { std::printf("not shared\\n"); return 1; } } if (p.use_count() != before) { std::printf("released twice\\n"); return 1; } return 0; }
""")
only=[x for x in sys.argv[1:] if x!="--test"]
for id,prop,edits,needs,breaks,demo in B:
    if only and id not in only: continue
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'],check=True)
    ok=True
    for f,o,n in edits:
        p='/repo/'+f; s=open(p).read()
        if s.count(o)!=1: print(id,'EDIT count',s.count(o),f); ok=False; continue
        open(p,'w').write(s.replace(o,n))
    if not ok: subprocess.run(['git','-C','/repo','checkout','-q','--','.']); continue
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write('#!/bin/bash\n# builds a small program against ./include and runs it\nh=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\ng++ -std=gnu++14 -w -O1 -Iinclude "$h/demo.cpp" -o "$t/demo"%s || exit 3\ntimeout 60 "$t/demo"\n'%(' -lboost_serialization' if 'archive' in demo else ''))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    def demo_rc(): 
        r=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True); return r.returncode,(r.stdout+r.stderr)[-300:]
    m=demo_rc()
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'],check=True)
    c=demo_rc()
    t=''
    if '--test' in sys.argv:
        subprocess.run(['git','-C','/repo','apply',d+'/patch.diff'],check=True)
        b=subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True,text=True)
        subprocess.run(['bash','/opt/vp/test.sh','/tmp/w/mk.json'],capture_output=True)
        r=json.load(open('/tmp/w/mk.json')); t='build %d failed %s'%(b.returncode,r['failed'])
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'],check=True)
    print(id,'clean',c,'mutant',m,t,flush=True)
