#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/skewness.hpp>
#include <boost/accumulators/statistics/kurtosis.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <cmath>
using namespace boost::accumulators;

NOINLINE double ipow(double x, int k) { double r = 1; for (int i = 0; i < k; ++i) r *= x; return r; }

template<typename T> NOINLINE void moments(int N)
{
    accumulator_set<T, stats<tag::moment<1>, tag::moment<2>, tag::moment<3>, tag::moment<4>, tag::moment<5>, tag::moment<6>, tag::moment<7>, tag::moment<8> > > a;
    double s[9] = {0};
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>();
        a(x);
        for (int k = 1; k < 9; ++k) s[k] += ipow((double)x, k);
        double c = i + 1;
        vf_eq(moment<1>(a), s[1] / c, "moment1"); vf_eq(moment<2>(a), s[2] / c, "moment2");
        vf_eq(moment<3>(a), s[3] / c, "moment3"); vf_eq(moment<4>(a), s[4] / c, "moment4");
        vf_eq(moment<5>(a), s[5] / c, "moment5"); vf_eq(moment<6>(a), s[6] / c, "moment6");
        vf_eq(moment<7>(a), s[7] / c, "moment7"); vf_eq(moment<8>(a), s[8] / c, "moment8");
    }
    vf_cover("end");
}
// @bound h_moment_double 1..5 reals, orders 1..8
HARNESS(h_moment_double) { moments<double>(5); }
// integer samples small enough that the integer power sums stay in range
// @bound h_moment_int 1..4 ints in [-10,10], orders 1..5
HARNESS(h_moment_int)
{
    accumulator_set<int, stats<tag::moment<1>, tag::moment<2>, tag::moment<3>, tag::moment<4>, tag::moment<5> > > a;
    double s[6] = {0};
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        int x = (int)vf_int(-10, 10);
        a(x);
        for (int k = 1; k < 6; ++k) s[k] += ipow(x, k);
        double c = i + 1;
        vf_eq(moment<1>(a), s[1] / c, "moment1"); vf_eq(moment<2>(a), s[2] / c, "moment2");
        vf_eq(moment<3>(a), s[3] / c, "moment3"); vf_eq(moment<4>(a), s[4] / c, "moment4");
        vf_eq(moment<5>(a), s[5] / c, "moment5");
    }
    vf_cover("end");
}

template<typename T> NOINLINE void variances(int N)
{
    accumulator_set<T, stats<tag::variance(lazy)> > lz;
    accumulator_set<T, stats<tag::variance(immediate)> > im;
    accumulator_set<T, stats<tag::variance> > df;
    accumulator_set<T, stats<tag::mean(immediate), tag::variance> > both;
    double xs[16], s = 0;
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>();
        xs[i] = (double)x; s += (double)x;
        lz(x); im(x); df(x); both(x);
        double m = s / (i + 1), v = 0;
        for (int k = 0; k <= i; ++k) v += (xs[k] - m) * (xs[k] - m);
        v /= (i + 1);
        vf_eq(variance(lz), v, "lazy"); vf_eq(variance(im), v, "immediate");
        vf_eq(variance(df), v, "default"); vf_eq(variance(both), v, "with_immediate_mean");
    }
    vf_cover("end");
}
// @bound h_var_double 1..7 (thorough 12) reals
HARNESS(h_var_double) { variances<double>(VF_T(7, 12)); }
// @bound h_var_float 1..4 floats
HARNESS(h_var_float) { variances<float>(4); }
// @bound h_var_int 1..5 ints in [-1000,1000]
HARNESS(h_var_int) { variances<int>(5); }
// @bound h_var_unsigned 1..4 unsigned in [0,20000] (squares stay in range)
HARNESS(h_var_unsigned)
{
    accumulator_set<unsigned, stats<tag::variance(lazy)> > lz;
    accumulator_set<unsigned, stats<tag::variance> > im;
    double xs[8], s = 0;
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        unsigned x = (unsigned)vf_int(0, 20000);
        xs[i] = x; s += x; lz(x); im(x);
        double m = s / (i + 1), v = 0;
        for (int k = 0; k <= i; ++k) v += (xs[k] - m) * (xs[k] - m);
        v /= (i + 1);
        vf_eq(variance(lz), v, "lazy"); vf_eq(variance(im), v, "immediate");
    }
    vf_cover("end");
}

// skewness and kurtosis, non-degenerate streams
template<typename T> NOINLINE void shape(int N)
{
    accumulator_set<T, stats<tag::skewness> > sk;
    accumulator_set<T, stats<tag::kurtosis> > ku;
    accumulator_set<T, stats<tag::kurtosis, tag::mean(immediate), tag::skewness> > both;
    double xs[8], s = 0;
    int n = 2 + vf_choice(N - 1);
    for (int i = 0; i < n; ++i)
    {
        T x = boost::is_same<T, int>::value ? (T)vf_int(-30, 30) : fresh<T>(); xs[i] = (double)x; s += (double)x;
        sk(x); ku(x); both(x);
    }
    double m = s / n, m2 = 0, m3 = 0, m4 = 0;
    for (int k = 0; k < n; ++k) { double d = xs[k] - m; m2 += d * d; m3 += d * d * d; m4 += d * d * d * d; }
    m2 /= n; m3 /= n; m4 /= n;
    vf_assume(m2 > 0);
    vf_eq(kurtosis(ku), m4 / (m2 * m2) - 3, "kurtosis");
    vf_eq(kurtosis(both), m4 / (m2 * m2) - 3, "kurtosis_both");
    double r = std::sqrt(m2);
    vf_eq(skewness(sk), m3 / (m2 * r), "skewness");
    vf_eq(skewness(both), m3 / (m2 * r), "skewness_both");
    vf_cover("end");
}
// @bound h_shape_double 2..4 (thorough 5) reals with non-zero variance
HARNESS(h_shape_double) { shape<double>(VF_T(4, 5)); }
// @bound h_shape_float 2..3 floats with non-zero variance
HARNESS(h_shape_float) { shape<float>(3); }

// @bound h_shape_int 2..3 ints in [-30,30] with non-zero variance
HARNESS(h_shape_int) { shape<int>(3); }

// long history
// @bound h_long_history 300 samples, 3 arbitrary
HARNESS(h_long_history)
{
    accumulator_set<double, stats<tag::variance(lazy), tag::moment<3> > > lz;
    accumulator_set<double, stats<tag::variance, tag::mean(immediate)> > im;
    double s1 = 0, s2 = 0, s3 = 0;
    for (int i = 0; i < 300; ++i)
    {
        double x = (i == 5 || i == 256 || i == 298) ? vf_real() : (double)(i % 9) - 4;
        lz(x); im(x); s1 += x; s2 += x * x; s3 += x * x * x;
        if (i % 64 == 1 || i > 254)
        {
            double n = i + 1, v = s2 / n - (s1 / n) * (s1 / n);
            vf_eq(variance(lz), v, "lazy"); vf_eq(variance(im), v, "immediate"); vf_eq(moment<3>(lz), s3 / n, "moment3");
        }
    }
    vf_cover("end");
}
// inductive step of the iterative variance: state is count n, sum s, variance v; one sample x must give the exact update
// @bound h_step arbitrary count in [2,2^40], arbitrary mean and variance, one arbitrary sample
HARNESS(h_step)
{
    accumulator_set<double, stats<tag::count, tag::mean(immediate), tag::variance> > a;
    // dependencies of variance bring in: count, mean (as immediate), variance
    inject ar("zdd"); a.serialize(ar, 0); ar.done();
    std::size_t n = count(a); double m = mean(a), v = variance(a), x = vf_real();
    vf_assume(n >= 2);
    a(x);
    double N = (double)n, m1 = (N * m + x) / (N + 1);
    // E[x^2] is additive
    double e2 = (N * (v + m * m) + x * x) / (N + 1);
    vf_eq(mean(a), m1, "mean");
    vf_eq(variance(a), e2 - m1 * m1, "variance");
    vf_cover("end");
}
// @bound h_step_moment arbitrary count in [0,2^40] and power sum, one arbitrary sample
HARNESS(h_step_moment)
{
    accumulator_set<double, stats<tag::count, tag::moment<3> > > a;
    inject ar("zd"); a.serialize(ar, 0); ar.done();
    std::size_t n = count(a);
    vf_assume(n >= 1);
    double m = moment<3>(a), x = vf_real();
    a(x);
    vf_eq(moment<3>(a), (m * (double)n + x * x * x) / (double)(n + 1), "moment3");
    vf_cover("end");
}
