#include "common.h"
#include "fresh.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/weighted_covariance.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/weighted_tail_mean.hpp>
#include <boost/accumulators/statistics/weighted_tail_quantile.hpp>
#include <boost/accumulators/statistics/weighted_density.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
static double rl() { return vf_real_in(-1e30, 1e30); }
typedef tag::weighted_covariance<double, tag::covariate1> cov;
typedef tag::weighted_mean_of_variates<double, tag::covariate1> mv;
template<typename A> NOINLINE void across()
{
    static double const ws[3] = { 2, 0.5, 3 };
    A a(tag::tail<right>::cache_size = 2, tag::rolling_window::window_size = 2, tag::density::cache_size = 2, tag::density::num_bins = 2);
    accumulator_set<double, features<tag::mean>, double> m; accumulator_set<double, features<tag::variance>, double> v; accumulator_set<double, features<cov>, double> c;
    accumulator_set<double, features<mv>, double> y1; accumulator_set<double, features<tag::rolling_mean>, double> rm(tag::rolling_window::window_size = 2);
    accumulator_set<double, features<tag::weighted_tail_quantile<right> >, double> q(tag::tail<right>::cache_size = 2);
    accumulator_set<double, features<tag::density>, double> d(tag::density::cache_size = 2, tag::density::num_bins = 2);
    accumulator_set<double, features<tag::sum_of_weights>, double> w;
    for (int i = 0; i < 3; ++i)
    {
        double x = rl(), y = rl(); a(x, weight = ws[i], covariate1 = y); m(x, weight = ws[i]); v(x, weight = ws[i]); c(x, weight = ws[i], covariate1 = y);
        y1(x, weight = ws[i], covariate1 = y); rm(x, weight = ws[i]); q(x, weight = ws[i]); d(x, weight = ws[i]); w(x, weight = ws[i]);
    }
    vf_assert(count(a) == 3, "count"); vf_eq(mean(a), mean(m), "mean"); vf_eq(variance(a), variance(v), "variance"); vf_eq(weighted_covariance(a), weighted_covariance(c), "covariance");
    vf_eq(extract_result<mv>(a), extract_result<mv>(y1), "mean_of_variates"); vf_eq(rolling_mean(a), rolling_mean(rm), "rolling_mean");
    vf_eq(quantile(a, quantile_probability = 0.75), quantile(q, quantile_probability = 0.75), "quantile"); vf_eq(sum_of_weights(a), sum_of_weights(w), "weights");
    auto g = density(a), h = density(d);
    for (int k = 0; k < 4; ++k) { vf_eq(g[k].first, h[k].first, "bin"); vf_eq(g[k].second, h[k].second, "mass"); }
    vf_cover("end");
}
// @bound h_wacross eight weighted features of six families in one set, three listings, against single ones; 3 reals with variates and fixed weights, buffers of 2
HARNESS(h_wacross)
{
    switch (vf_choice(3))
    {
    case 0: across<accumulator_set<double, stats<tag::mean, tag::variance, cov, mv, tag::rolling_mean, tag::weighted_tail_quantile<right>, tag::density, tag::sum_of_weights>, double> >(); break;
    case 1: across<accumulator_set<double, stats<tag::sum_of_weights, tag::density, tag::weighted_tail_quantile<right>, tag::rolling_mean, mv, cov, tag::variance, tag::mean>, double> >(); break;
    default: across<accumulator_set<double, stats<cov, tag::variance(lazy), tag::density, tag::min, tag::mean, tag::weighted_tail_quantile<right>, mv, tag::sum_kahan, tag::rolling_mean(lazy)>, double> >(); break;
    }
}
