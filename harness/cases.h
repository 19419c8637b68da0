// One case per feature (or family that shares state): how to make a set, feed it, and compare two sets.
// Used by the properties about histories: extraction (C02), copying (C03), saving (C04).
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#ifndef VF_CASES_H
#define VF_CASES_H
#include "common.h"
#include "fresh.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/tuple/tuple.hpp>
using namespace boost::accumulators;

struct in { double x, w, y; };
inline void eq(double a, double b) { vf_eq(a, b, "same"); }
inline void eq(std::size_t a, std::size_t b) { vf_assert(a == b, "same_count"); }
template<typename A, typename B> inline void eq(std::pair<A, B> const &a, std::pair<A, B> const &b) { eq(a.first, b.first); eq(a.second, b.second); }
template<typename A, typename B, typename C> inline void eq(boost::tuple<A, B, C> const &a, boost::tuple<A, B, C> const &b)
{
    eq(a.template get<0>(), b.template get<0>()); eq(a.template get<1>(), b.template get<1>()); eq(a.template get<2>(), b.template get<2>());
}
template<typename R> NOINLINE void eqr(R const &a, R const &b)
{
    auto i = a.begin(), j = b.begin();
    for (; i != a.end() && j != b.end(); ++i, ++j) eq(*i, *j);
    vf_assert(i == a.end() && j == b.end(), "same_size");
}
static double const wv[8] = { 2, 0.5, 3, 1, 0.25, 4, 1.5, 2 };

// N samples in all; results are first defined after MIN samples; ORD: the first ORD samples arrive in increasing order
template<typename F, typename W = void> struct base
{
    typedef accumulator_set<double, F, W> set;
    enum { N = 3, MIN = 1, ORD = 0 };
    static void push(set &s, in const &v) { s(v.x); }
};
template<typename F> struct wbase : base<F, double>
{
    typedef accumulator_set<double, F, double> set;
    static void push(set &s, in const &v) { s(v.x, weight = v.w); }
};
template<typename F> struct wbase_y : wbase<F> { typedef accumulator_set<double, F, double> set; static void push(set &s, in const &v) { s(v.x, weight = v.w, covariate1 = v.y); } };
template<typename F> struct base_y : base<F> { typedef accumulator_set<double, F> set; static void push(set &s, in const &v) { s(v.x, covariate1 = v.y); } };
#define CASE(name, ...) struct name : __VA_ARGS__ { typedef __VA_ARGS__ up; typedef up::set set;
#define MAKE(...) static set make(int) { return set(__VA_ARGS__); }
#define MAKE0 static set make(int) { return set(); }
#define MAKEC(...) static set make(int c) { return set(__VA_ARGS__); }      // c: 0, or 1 for a set configured with a larger buffer
#define SAME(...) static void same(set const &a, set const &b) { __VA_ARGS__; } };
#define EQ(f) eq(f(a), f(b))
#define EQR(f) eqr(f(a), f(b))
#define EQP(f, p) eq(f(a, quantile_probability = p), f(b, quantile_probability = p))

#ifdef GROUP_BASIC
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/skewness.hpp>
#include <boost/accumulators/statistics/kurtosis.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/covariance.hpp>
CASE(c_sum, base<stats<tag::count, tag::sum, tag::mean> >) MAKE0 SAME(EQ(count); EQ(sum); EQ(mean))
CASE(c_immediate, base<stats<tag::mean(immediate), tag::variance> >) MAKE0 SAME(EQ(mean); EQ(variance))
CASE(c_lazy, base<stats<tag::moment<3>, tag::variance(lazy)> >) MAKE0 SAME(EQ(moment<3>); EQ(variance))
CASE(c_shape, base<stats<tag::skewness, tag::kurtosis> >) enum { MIN = 2 }; MAKE0 SAME(vf_assume(moment<2>(b) != mean(b) * mean(b)); EQ(skewness); EQ(kurtosis))
CASE(c_minmax, base<stats<tag::min, tag::max> >) MAKE0 SAME(EQ((min)); EQ((max)))
CASE(c_kahan, base<stats<tag::sum_kahan> >) MAKE0 SAME(EQ(sum_kahan))
CASE(c_covariance, base_y<stats<tag::covariance<double, tag::covariate1> > >) MAKE0 SAME(EQ(covariance))
CASE(c_variates, base_y<stats<tag::mean_of_variates<double, tag::covariate1>(immediate), tag::sum_of_variates<double, tag::covariate1> > >) MAKE0
    SAME(eq(extract_result<tag::mean_of_variates<double, tag::covariate1> >(a), extract_result<tag::mean_of_variates<double, tag::covariate1> >(b)); EQ(sum_of_variates))
#endif
#ifdef GROUP_WEIGHTED
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/weighted_skewness.hpp>
#include <boost/accumulators/statistics/weighted_kurtosis.hpp>
#include <boost/accumulators/statistics/weighted_covariance.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
CASE(c_wsum, wbase<stats<tag::count, tag::sum, tag::sum_of_weights> >) MAKE0 SAME(EQ(count); EQ(weighted_sum); EQ(sum_of_weights))
CASE(c_wmean, wbase<stats<tag::mean, tag::variance(lazy)> >) MAKE0 SAME(EQ(mean); EQ(variance))
CASE(c_wimmediate, wbase<stats<tag::mean(immediate), tag::variance> >) MAKE0 SAME(EQ(mean); EQ(variance))
CASE(c_wmoment, wbase<stats<tag::moment<3> > >) MAKE0 SAME(EQ(weighted_moment<3>))
CASE(c_wshape, wbase<stats<tag::weighted_skewness, tag::weighted_kurtosis> >) enum { MIN = 2 }; MAKE0
    SAME(vf_assume(weighted_moment<2>(b) != mean(b) * mean(b)); EQ(weighted_skewness); EQ(weighted_kurtosis))
CASE(c_wkahan, wbase<stats<tag::weighted_sum_kahan, tag::sum_of_weights_kahan> >) MAKE0 SAME(EQ(weighted_sum_kahan); EQ(sum_of_weights_kahan))
CASE(c_wcovariance, wbase_y<stats<tag::weighted_covariance<double, tag::covariate1> > >) MAKE0 SAME(EQ(weighted_covariance))
CASE(c_meanw, wbase<stats<tag::mean_of_weights(immediate)> >) MAKE0 SAME(EQ(mean_of_weights))
#endif
#ifdef GROUP_ROLLING
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#define ROLL enum { N = 5 }; MAKEC(tag::rolling_window::window_size = 2 + c)
CASE(c_window, base<stats<tag::rolling_window> >) ROLL SAME(EQR(rolling_window))
CASE(c_rsum, base<stats<tag::rolling_sum, tag::rolling_count> >) ROLL SAME(EQ(rolling_sum); EQ(rolling_count))
CASE(c_rmean, base<stats<tag::rolling_mean> >) ROLL SAME(EQ(rolling_mean))
CASE(c_rmean_lazy, base<stats<tag::rolling_mean(lazy)> >) ROLL SAME(EQ(rolling_mean))
CASE(c_rmoment, base<stats<tag::rolling_moment<2> > >) ROLL SAME(EQ(rolling_moment<2>))
CASE(c_rvariance, base<stats<tag::rolling_variance> >) ROLL SAME(EQ(rolling_variance))
CASE(c_rvariance_lazy, base<stats<tag::rolling_variance(lazy)> >) ROLL SAME(EQ(rolling_variance))
#endif
#ifdef GROUP_TAIL
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/tail_mean.hpp>
#include <boost/accumulators/statistics/tail_variate_means.hpp>
#define TAILL MAKEC(tag::tail<left>::cache_size = 2 + c)
#define TAILR MAKEC(tag::tail<right>::cache_size = 2 + c)
CASE(c_tail, base<stats<tag::tail<left> > >) TAILL SAME(EQR(tail))
CASE(c_tail4, base<stats<tag::tail<right> > >) enum { N = 4 }; MAKEC(tag::tail<right>::cache_size = 3 + c) SAME(EQR(tail))
CASE(c_tvariate, base_y<stats<tag::tail_variate<double, tag::covariate1, right> > >) TAILR SAME(EQR(tail_variate); EQR(tail))
CASE(c_tquantile, base<stats<tag::tail_quantile<left> > >) TAILL SAME(EQP(quantile, 0.5); EQP(quantile, 0.25))
CASE(c_tmean, base<stats<tag::coherent_tail_mean<right>, tag::tail_quantile<right> > >) TAILR SAME(EQP(non_coherent_tail_mean, 0.5); EQP(tail_mean, 0.5); EQP(quantile, 0.75))
typedef std::vector<double> dvec;
CASE(c_tvm, base<stats<tag::tail_variate_means<right, dvec, tag::covariate1>(absolute)> >) static void push(set &s, in const &v) { s(v.x, covariate1 = dvec(1, v.y)); }
    MAKEC(tag::tail<right>::cache_size = 2 + c) SAME(auto r = tail_variate_means(a, quantile_probability = 0.5); dvec va(r.begin(), r.end()); auto q = tail_variate_means(b, quantile_probability = 0.5); eqr(va, dvec(q.begin(), q.end())))
CASE(c_tvmr, base<stats<tag::tail_variate_means<left, dvec, tag::covariate1>(relative)> >) static void push(set &s, in const &v) { s(v.x, covariate1 = dvec(1, v.y)); }
    MAKEC(tag::tail<left>::cache_size = 2 + c) SAME(auto r = relative_tail_variate_means(a, quantile_probability = 0.5); dvec va(r.begin(), r.end()); auto q = relative_tail_variate_means(b, quantile_probability = 0.5); eqr(va, dvec(q.begin(), q.end())))
#endif
#ifdef GROUP_WTAIL
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/weighted_tail_quantile.hpp>
#include <boost/accumulators/statistics/weighted_tail_mean.hpp>
#include <boost/accumulators/statistics/weighted_tail_variate_means.hpp>
#define TAILL MAKEC(tag::tail<left>::cache_size = 2 + c)
#define TAILR MAKEC(tag::tail<right>::cache_size = 2 + c)
CASE(c_tweights, wbase<stats<tag::tail_weights<left> > >) TAILL SAME(EQR(tail_weights); EQR(tail))
CASE(c_wtquantile, wbase<stats<tag::weighted_tail_quantile<right> > >) TAILR SAME(EQP(quantile, 0.75); EQP(quantile, 0.5))
CASE(c_wtmean, wbase<stats<tag::non_coherent_weighted_tail_mean<left> > >) TAILL SAME(EQP(non_coherent_weighted_tail_mean, 0.5))
typedef std::vector<double> dvec;
CASE(c_wtvm, wbase<stats<tag::weighted_tail_variate_means<right, dvec, tag::covariate1>(absolute)> >) static void push(set &s, in const &v) { s(v.x, weight = v.w, covariate1 = dvec(1, v.y)); }
    MAKEC(tag::tail<right>::cache_size = 2 + c) SAME(auto r = weighted_tail_variate_means(a, quantile_probability = 0.5); dvec va(r.begin(), r.end()); auto q = weighted_tail_variate_means(b, quantile_probability = 0.5); eqr(va, dvec(q.begin(), q.end())))
#endif
#ifdef GROUP_DENSITY
#include <boost/accumulators/statistics/density.hpp>
#include <boost/accumulators/statistics/weighted_density.hpp>
#include <boost/accumulators/statistics/median.hpp>
#include <boost/accumulators/statistics/weighted_median.hpp>
#define DENS enum { N = 4, MIN = 2 }; MAKEC(density_cache_size = 2 + c, density_num_bins = 2 + c)
CASE(c_density, base<stats<tag::density> >) DENS SAME(EQR(density))
CASE(c_wdensity, wbase<stats<tag::density> >) DENS SAME(EQR(density))
CASE(c_dmedian, base<stats<tag::median(with_density)> >) DENS SAME(EQ(with_density_median))
CASE(c_wdmedian, wbase<stats<tag::median(with_density)> >) DENS SAME(EQ(weighted_median))
#endif
#ifdef GROUP_PSQUARE
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/extended_p_square.hpp>
#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
#include <boost/accumulators/statistics/median.hpp>
static double const pp[3] = { 0.25, 0.5, 0.75 };
inline std::vector<double> probs() { return std::vector<double>(pp, pp + 3); }
CASE(c_p2, base<stats<tag::p_square_quantile> >) enum { N = 7, MIN = 5, ORD = 5 }; MAKE(quantile_probability = 0.25) SAME(EQ(p_square_quantile))
CASE(c_cdf, base<stats<tag::p_square_cumulative_distribution> >) enum { N = 7, MIN = 5, ORD = 5 }; MAKEC(p_square_cumulative_distribution_num_cells = 4 + c) SAME(EQR(p_square_cumulative_distribution))
CASE(c_xp2, base<stats<tag::extended_p_square> >) enum { N = 9, MIN = 7, ORD = 7 }; MAKE(extended_p_square_probabilities = probs()) SAME(EQR(extended_p_square))
CASE(c_xp2q, base<stats<tag::extended_p_square_quantile> >) enum { N = 8, MIN = 7, ORD = 7 }; MAKE(extended_p_square_probabilities = probs()) SAME(EQP(quantile, 0.5); EQP(quantile, 0.3))
CASE(c_xp2q2, base<stats<tag::extended_p_square_quantile(quadratic)> >) enum { N = 8, MIN = 7, ORD = 8 }; MAKE(extended_p_square_probabilities = probs()) SAME(EQP(quantile, 0.5); EQP(quantile, 0.3))
CASE(c_median, base<stats<tag::median> >) enum { N = 7, MIN = 5, ORD = 5 }; MAKE0 SAME(EQ(median))
CASE(c_cmedian, base<stats<tag::median(with_p_square_cumulative_distribution)> >) enum { N = 7, MIN = 5, ORD = 5 }; MAKEC(p_square_cumulative_distribution_num_cells = 4 + c) SAME(EQ(median))
#endif
#ifdef GROUP_WPSQUARE
#include <boost/accumulators/statistics/weighted_p_square_quantile.hpp>
#include <boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/weighted_extended_p_square.hpp>
#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
#include <boost/accumulators/statistics/weighted_median.hpp>
static double const pp[3] = { 0.25, 0.5, 0.75 };
inline std::vector<double> probs() { return std::vector<double>(pp, pp + 3); }
CASE(c_wp2, wbase<stats<tag::weighted_p_square_quantile> >) enum { N = 6, MIN = 5, ORD = 5 }; MAKE(quantile_probability = 0.25) SAME(EQ(weighted_p_square_quantile))
CASE(c_wcdf, wbase<stats<tag::weighted_p_square_cumulative_distribution> >) enum { N = 6, MIN = 5, ORD = 5 }; MAKE(p_square_cumulative_distribution_num_cells = 4) SAME(EQR(weighted_p_square_cumulative_distribution))
CASE(c_wxp2, wbase<stats<tag::weighted_extended_p_square> >) enum { N = 8, MIN = 7, ORD = 7 }; MAKE(extended_p_square_probabilities = probs()) SAME(EQR(weighted_extended_p_square))
CASE(c_wxp2q, wbase<stats<tag::weighted_extended_p_square_quantile> >) enum { N = 8, MIN = 7, ORD = 8 }; MAKE(extended_p_square_probabilities = probs()) SAME(EQP(quantile, 0.5); EQP(quantile, 0.3))
CASE(c_wmedian, wbase<stats<tag::weighted_median> >) enum { N = 6, MIN = 5, ORD = 5 }; MAKE0 SAME(EQ(weighted_median))
CASE(c_wcmedian, wbase<stats<tag::weighted_median(with_p_square_cumulative_distribution)> >) enum { N = 6, MIN = 5, ORD = 5 }; MAKE(p_square_cumulative_distribution_num_cells = 4) SAME(EQ(weighted_median))
#endif
#ifdef GROUP_POT
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/weighted_peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/pot_quantile.hpp>
#include <boost/accumulators/statistics/pot_tail_mean.hpp>
// at least two distinct samples beyond the threshold keep the fit defined
#define POTV(LR) enum { N = 4, MIN = 2, ORD = 4 }; MAKE(pot_threshold_value = (boost::is_same<LR, left>::value ? 1e31 : -1e31))
#define POTP(LR) enum { N = 4, MIN = 3, ORD = 4 }; MAKEC(tag::tail<LR>::cache_size = 4 + c, pot_threshold_probability = (boost::is_same<LR, left>::value ? 0.5 : 0.5))
CASE(c_pot, base<stats<tag::peaks_over_threshold<left> > >) POTV(left) SAME(EQ(peaks_over_threshold))
CASE(c_potp, base<stats<tag::peaks_over_threshold_prob<right> > >) POTP(right) SAME(EQ(peaks_over_threshold))
CASE(c_potq, base<stats<tag::pot_quantile<right>(with_threshold_value), tag::pot_tail_mean<right>(with_threshold_value)> >) POTV(right) SAME(EQP(quantile, 0.75); EQP(tail_mean, 0.75))
CASE(c_potpq, base<stats<tag::pot_quantile<left>(with_threshold_probability), tag::pot_tail_mean<left>(with_threshold_probability)> >) POTP(left) SAME(EQP(quantile, 0.25); EQP(tail_mean, 0.25))
CASE(c_wpot, wbase<stats<tag::weighted_peaks_over_threshold<right> > >) POTV(right) SAME(EQ(weighted_peaks_over_threshold))
CASE(c_wpotp, wbase<stats<tag::weighted_peaks_over_threshold_prob<left> > >) POTP(left) SAME(EQ(weighted_peaks_over_threshold))
#endif

// draws the i-th sample; in the ordered part it exceeds the one before
template<typename C> NOINLINE in draw(int i, double *prev)
{
    in v; v.x = vf_real_in(-1e30, 1e30); v.y = vf_real(); v.w = wv[i % 8];
    if (i > 0 && i < C::ORD) vf_assume(v.x > *prev);
    *prev = v.x;
    return v;
}
// a longer stream, of which sample 32 (thorough: and 38) is arbitrary, for sets with larger buffers
enum { LONG = 40, LONG_C = 14 };
inline in long_draw(int i)
{
    in v; v.x = i == 32 || (VF_T(0, 1) && i == 38) ? vf_real_in(-1e30, 1e30) : (double)((i * 37) % 101); v.y = (double)((i * 5) % 11); v.w = wv[i % 8];
    return v;
}
#endif
