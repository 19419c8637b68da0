#include "common.h"
#include "fresh.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/covariance.hpp>
#include <boost/accumulators/statistics/error_of_mean.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/tail_mean.hpp>
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/density.hpp>
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
static double rl() { return vf_real_in(-1e30, 1e30); }

// statistics of different families in one set
typedef tag::covariance<double, tag::covariate1> cov;
typedef tag::tail_variate<double, tag::covariate1, left> tv;
template<typename A> NOINLINE void across()
{
    A a(tag::tail<left>::cache_size = 2, tag::rolling_window::window_size = 2, tag::density::cache_size = 2, tag::density::num_bins = 2, quantile_probability = 0.5);
    accumulator_set<double, features<tag::mean> > m; accumulator_set<double, features<tag::variance> > v; accumulator_set<double, features<cov> > c;
    accumulator_set<double, features<tag::rolling_mean> > rm(tag::rolling_window::window_size = 2);
    accumulator_set<double, features<tag::rolling_variance> > rv(tag::rolling_window::window_size = 2);
    accumulator_set<double, features<tv> > t(tag::tail<left>::cache_size = 2);
    accumulator_set<double, features<tag::non_coherent_tail_mean<left> > > tm(tag::tail<left>::cache_size = 2);
    accumulator_set<double, features<tag::density> > d(tag::density::cache_size = 2, tag::density::num_bins = 2);
    accumulator_set<double, features<tag::max> > hi;
    for (int i = 0; i < 3; ++i)
    {
        double x = rl(), y = rl(); a(x, covariate1 = y); m(x); v(x); c(x, covariate1 = y); rm(x); rv(x); t(x, covariate1 = y); tm(x); d(x); hi(x);
    }
    vf_assert(count(a) == 3, "count"); vf_eq(mean(a), mean(m), "mean"); vf_eq(variance(a), variance(v), "variance"); vf_eq(covariance(a), covariance(c), "covariance");
    vf_eq(rolling_mean(a), rolling_mean(rm), "rolling_mean"); vf_eq(rolling_variance(a), rolling_variance(rv), "rolling_variance");
    vf_eq((max)(a), (max)(hi), "max"); vf_eq(non_coherent_tail_mean(a, quantile_probability = 0.5), non_coherent_tail_mean(tm, quantile_probability = 0.5), "tail_mean");
    auto r = tail_variate(a), e = tail_variate(t); auto i = r.begin();
    for (auto j = e.begin(); j != e.end() && i != r.end(); ++i, ++j) vf_eq(*i, *j, "variate");
    auto g = density(a), h = density(d);
    for (int k = 0; k < 4; ++k) { vf_eq(g[k].first, h[k].first, "bin"); vf_eq(g[k].second, h[k].second, "mass"); }
    vf_cover("end");
}
// @bound h_across nine features of seven families in one set, three listings, against single ones; 3 reals with variates, buffers of 2
HARNESS(h_across)
{
    switch (vf_choice(3))
    {
    case 0: across<accumulator_set<double, stats<tag::mean, tag::variance, cov, tag::rolling_mean, tag::rolling_variance, tv, tag::non_coherent_tail_mean<left>, tag::density, tag::max> > >(); break;
    case 1: across<accumulator_set<double, stats<tag::max, tag::density, tag::non_coherent_tail_mean<left>, tv, tag::rolling_variance, tag::rolling_mean, cov, tag::variance, tag::mean> > >(); break;
    default: across<accumulator_set<double, stats<tag::density, tag::rolling_variance(lazy), cov, tv, tag::min, tag::max, tag::variance(lazy), tag::coherent_tail_mean<left>, tag::tail_quantile<left>, tag::mean(immediate), tag::rolling_mean(lazy)> > >(); break;
    }
}
