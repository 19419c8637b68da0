#include "common.h"
#include "fresh.h"
#include <sstream>
#include <stdexcept>
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/tail_mean.hpp>
#include <boost/accumulators/statistics/tail_variate_means.hpp>
#include <boost/accumulators/statistics/weighted_tail_quantile.hpp>
#include <boost/accumulators/statistics/weighted_tail_mean.hpp>
#include <boost/accumulators/statistics/weighted_tail_variate_means.hpp>
#include <boost/accumulators/statistics/peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/weighted_peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/pot_quantile.hpp>
#include <boost/accumulators/statistics/pot_tail_mean.hpp>
using namespace boost::accumulators;
typedef std::vector<double> dvec;
static double const wv[4] = { 2, 0.5, 3, 1 };
// any probability, the ends included, on streams from the empty one on, caches of 1 to 3; a result may be NaN, or (for
// types without NaN) an exception
template<typename LR, typename T> NOINLINE void tails()
{
    int C = 1 + vf_choice(3), n = vf_choice(4); double p = vf_real_in(0, 1);
    accumulator_set<T, stats<tag::tail_quantile<LR>, tag::coherent_tail_mean<LR>, tag::tail_variate_means<LR, dvec, tag::covariate1>(absolute)> > a(tag::tail<LR>::cache_size = C);
    for (int i = 0; i < n; ++i) a(fresh<T>(), covariate1 = dvec(2, (double)i));
    int got = 0;
    try { if (quantile(a, quantile_probability = p) > 1e9) ++got; } catch (std::runtime_error const &) {}
    try { if (non_coherent_tail_mean(a, quantile_probability = p) > 1e9) ++got; } catch (std::runtime_error const &) {}
    try { if (tail_mean(a, quantile_probability = p) > 1e9) ++got; } catch (std::runtime_error const &) {}
    try { auto r = tail_variate_means(a, quantile_probability = p); for (auto i = r.begin(); i != r.end(); ++i) if (*i > 1e9) ++got; } catch (std::runtime_error const &) {}
    vf_assert(got <= 5, "got");
    vf_cover("end");
}
// @bound h_tails_left 0..3 reals with variates, caches 1..3, any probability in [0,1]
HARNESS(h_tails_left) { tails<left, double>(); }
// @bound h_tails_right 0..3 reals with variates, caches 1..3, any probability in [0,1]
HARNESS(h_tails_right) { tails<right, double>(); }
// @bound h_tails_int 0..3 ints with variates, caches 1..3, any probability in [0,1]; exceptions allowed
HARNESS(h_tails_int) { tails<left, int>(); }
template<typename LR, typename T> NOINLINE void wtails()
{
    int C = 1 + vf_choice(3), n = vf_choice(4); double p = vf_real_in(0, 1);
    accumulator_set<T, stats<tag::weighted_tail_quantile<LR>, tag::non_coherent_weighted_tail_mean<LR>, tag::weighted_tail_variate_means<LR, dvec, tag::covariate1>(absolute)>, double> a(tag::tail<LR>::cache_size = C);
    for (int i = 0; i < n; ++i) a(fresh<T>(), weight = wv[i], covariate1 = dvec(2, (double)i));
    int got = 0;
    try { if (quantile(a, quantile_probability = p) > 1e9) ++got; } catch (std::runtime_error const &) {}
    try { if (non_coherent_weighted_tail_mean(a, quantile_probability = p) > 1e9) ++got; } catch (std::runtime_error const &) {}
    try { auto r = weighted_tail_variate_means(a, quantile_probability = p); for (auto i = r.begin(); i != r.end(); ++i) if (*i > 1e9) ++got; } catch (std::runtime_error const &) {}
    vf_assert(got <= 4, "got");
    vf_cover("end");
}
// @bound h_wtails_left 0..3 reals with weights and variates, caches 1..3, any probability in [0,1]
HARNESS(h_wtails_left) { wtails<left, double>(); }
// @bound h_wtails_right 0..3 reals with weights and variates, caches 1..3, any probability in [0,1]
HARNESS(h_wtails_right) { wtails<right, double>(); }
// @bound h_wtails_int 0..3 ints with weights and variates, caches 1..3, any probability in [0,1]; exceptions allowed
HARNESS(h_wtails_int) { wtails<right, int>(); }
template<typename LR> NOINLINE void pots()
{
    int C = 1 + vf_choice(3), n = vf_choice(4); double p = vf_choice(3) / 2.;
    accumulator_set<double, stats<tag::peaks_over_threshold_prob<LR> > > a(tag::tail<LR>::cache_size = C, pot_threshold_probability = p);
    accumulator_set<double, stats<tag::weighted_peaks_over_threshold_prob<LR> >, double> b(tag::tail<LR>::cache_size = C, pot_threshold_probability = p);
    accumulator_set<double, stats<tag::peaks_over_threshold<LR> > > c(pot_threshold_value = 1.);
    accumulator_set<double, stats<tag::weighted_peaks_over_threshold<LR> >, double> d(pot_threshold_value = 1.);
    for (int i = 0; i < n; ++i) { double x = (i + 1) * 1.5; if (i == 1) x = vf_real_in(-100, 100); a(x); b(x, weight = wv[i]); c(x); d(x, weight = wv[i]); }
    double s = 0;
    s += peaks_over_threshold(a).template get<2>() > 1e9; s += weighted_peaks_over_threshold(b).template get<2>() > 1e9;
    s += peaks_over_threshold(c).template get<2>() > 1e9; s += weighted_peaks_over_threshold(d).template get<2>() > 1e9;
    vf_assert(s <= 4, "got");
    vf_cover("end");
}
// @bound h_pots 0..3 reals (one arbitrary), caches 1..3, threshold probabilities 0, 1/2, 1 and a threshold value, both tails, weighted and not
HARNESS(h_pots) { if (vf_choice(2)) pots<left>(); else pots<right>(); }
