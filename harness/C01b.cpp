#include "common.h"
#include "fresh.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/skewness.hpp>
#include <boost/accumulators/statistics/kurtosis.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;

// ----- real statistics: company and order do not matter
template<typename A> NOINLINE void together(int N)
{
    A a;
    accumulator_set<double, features<tag::count> > c;
    accumulator_set<double, features<tag::sum> > s;
    accumulator_set<double, features<tag::mean> > m;
    accumulator_set<double, features<tag::variance> > v;
    accumulator_set<double, features<tag::moment<3> > > m3;
    accumulator_set<double, features<tag::min> > lo;
    accumulator_set<double, features<tag::max> > hi;
    accumulator_set<double, features<tag::skewness> > sk;
    accumulator_set<double, features<tag::kurtosis> > ku;
    for (int i = 0; i < N; ++i)
    {
        double x = vf_real_in(-1e30, 1e30);
        a(x); c(x); s(x); m(x); v(x); m3(x); lo(x); hi(x); sk(x); ku(x);
    }
    vf_assert(count(a) == count(c), "count"); vf_eq(sum(a), sum(s), "sum"); vf_eq(mean(a), mean(m), "mean");
    vf_eq(variance(a), variance(v), "variance"); vf_eq(moment<3>(a), moment<3>(m3), "moment");
    vf_eq((min)(a), (min)(lo), "min"); vf_eq((max)(a), (max)(hi), "max");
    vf_assume(variance(v) != 0);
    vf_eq(skewness(a), skewness(sk), "skewness"); vf_eq(kurtosis(a), kurtosis(ku), "kurtosis");
    vf_cover("end");
}
// @bound h_moments nine features in one set, four listings with lazy/immediate variants, 3 reals of magnitude up to 1e30
HARNESS(h_moments)
{
    switch (vf_choice(4))
    {
    case 0: together<accumulator_set<double, stats<tag::count, tag::sum, tag::mean, tag::variance, tag::moment<3>, tag::min, tag::max, tag::skewness, tag::kurtosis> > >(3); break;
    case 1: together<accumulator_set<double, stats<tag::kurtosis, tag::skewness, tag::max, tag::min, tag::moment<3>, tag::variance(lazy), tag::mean, tag::sum, tag::count> > >(3); break;
    case 2: together<accumulator_set<double, stats<tag::variance, tag::kurtosis, tag::mean(immediate), tag::moment<3>, tag::skewness, tag::min, tag::sum, tag::max> > >(3); break;
    case 3: together<accumulator_set<double, features<tag::min, tag::variance(lazy), tag::skewness, tag::mean(immediate), tag::max, tag::sum_kahan, tag::kurtosis, tag::moment<3>, tag::mean> > >(3); break;
    }
}
