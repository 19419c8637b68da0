#include "common.h"
#include "fresh.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/covariance.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/weighted_covariance.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;

template<typename A> NOINLINE void wtogether(int N)
{
    static double const wv[4] = { 2, 0.5, 3, 1 };
    A a;
    accumulator_set<double, features<tag::sum_of_weights>, double> w;
    accumulator_set<double, features<tag::mean>, double> m;
    accumulator_set<double, features<tag::variance>, double> v;
    accumulator_set<double, features<tag::moment<2> >, double> m2;
    accumulator_set<double, features<tag::max>, double> hi;
    accumulator_set<double, features<tag::covariance<double, tag::covariate1> >, double> cv;
    for (int i = 0; i < N; ++i)
    {
        double x = vf_real_in(-1e30, 1e30), y = vf_real();
        a(x, weight = wv[i], covariate1 = y); w(x, weight = wv[i]); m(x, weight = wv[i]); v(x, weight = wv[i]); m2(x, weight = wv[i]); hi(x, weight = wv[i]); cv(x, weight = wv[i], covariate1 = y);
        vf_eq(sum_of_weights(a), sum_of_weights(w), "weights"); vf_assert(count(a) == (std::size_t)(i + 1), "count"); vf_eq(mean(a), mean(m), "mean");
        vf_eq(variance(a), variance(v), "variance"); vf_eq(moment<2>(a), moment<2>(m2), "moment"); vf_eq((max)(a), (max)(hi), "max");
        vf_eq(covariance(a), covariance(cv), "covariance");
    }
    vf_cover("end");
}
typedef tag::covariance<double, tag::covariate1> cov1;
// @bound h_weighted seven weighted features in one set, three listings, 3 reals with fixed weights
HARNESS(h_weighted)
{
    switch (vf_choice(3))
    {
    case 0: wtogether<accumulator_set<double, stats<tag::count, tag::sum_of_weights, tag::mean, tag::variance, tag::moment<2>, tag::max, cov1>, double> >(3); break;
    case 1: wtogether<accumulator_set<double, stats<cov1, tag::max, tag::moment<2>, tag::variance, tag::mean, tag::sum_of_weights, tag::count>, double> >(3); break;
    case 2: wtogether<accumulator_set<double, stats<tag::variance, cov1, tag::mean(immediate), tag::moment<2>, tag::count, tag::max>, double> >(3); break;
    }
}
template<typename A> NOINLINE void rtogether(int N)
{
    int W = 2 + vf_choice(2);
    A a(tag::rolling_window::window_size = W);
    accumulator_set<double, features<tag::rolling_sum> > s(tag::rolling_window::window_size = W);
    accumulator_set<double, features<tag::rolling_count> > c(tag::rolling_window::window_size = W);
    accumulator_set<double, features<tag::lazy_rolling_mean> > m(tag::rolling_window::window_size = W);
    accumulator_set<double, features<tag::lazy_rolling_variance> > v(tag::rolling_window::window_size = W);
    accumulator_set<double, features<tag::rolling_moment<2> > > m2(tag::rolling_window::window_size = W);
    for (int i = 0; i < N; ++i)
    {
        double x = vf_real(); a(x); s(x); c(x); m(x); v(x); m2(x);
        vf_eq(rolling_sum(a), rolling_sum(s), "sum"); vf_assert(rolling_count(a) == rolling_count(c), "count");
        vf_eq(rolling_mean(a), rolling_mean(m), "mean"); vf_eq(rolling_moment<2>(a), rolling_moment<2>(m2), "moment");
        if (i) vf_eq(rolling_variance(a), rolling_variance(v), "variance");
    }
    vf_cover("end");
}
// @bound h_rolling rolling features in one set, three listings, windows 2 and 3, 4 reals
HARNESS(h_rolling)
{
    switch (vf_choice(3))
    {
    case 0: rtogether<accumulator_set<double, stats<tag::rolling_sum, tag::rolling_count, tag::rolling_mean, tag::rolling_variance, tag::rolling_moment<2> > > >(4); break;
    case 1: rtogether<accumulator_set<double, stats<tag::rolling_moment<2>, tag::rolling_variance(lazy), tag::rolling_mean(lazy), tag::rolling_count, tag::rolling_sum> > >(4); break;
    case 2: rtogether<accumulator_set<double, stats<tag::rolling_variance, tag::rolling_moment<2>, tag::rolling_mean(immediate), tag::rolling_sum> > >(4); break;
    }
}
