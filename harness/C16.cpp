#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/weighted_sum_kahan.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;

// ---- exact arithmetic: equal to the plain sum
template<typename T> NOINLINE void exact(int N)
{
    T s0 = fresh<T>();
    accumulator_set<T, stats<tag::sum_kahan, tag::mean> > a;
    accumulator_set<T, stats<tag::sum_kahan> > b(sample = s0);
    double s = 0;
    vf_eq(sum_kahan(a), 0, "empty"); vf_eq(sum_kahan(b), s0, "initial");
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); s += (double)x; a(x); b(x);
        vf_eq(sum_kahan(a), s, "sum"); vf_eq(sum(a), s, "sum_name"); vf_eq(mean(a), s / (i + 1), "mean");
        vf_eq(sum_kahan(b), (double)s0 + s, "sum_init");
    }
    vf_cover("end");
}
// @bound h_exact_double 1..6 reals
HARNESS(h_exact_double) { exact<double>(6); }
// @bound h_exact_float 1..4 reals stored as float (exact arithmetic)
HARNESS(h_exact_float) { exact<float>(4); }
// @bound h_exact_int 1..4 ints in [-1000,1000]
HARNESS(h_exact_int) { exact<int>(4); }

// @bound h_exact_weighted 1..4 weighted reals with a variate
HARNESS(h_exact_weighted)
{
    typedef tag::covariate1 C;
    accumulator_set<double, stats<tag::sum_kahan, tag::sum_of_weights_kahan, tag::mean>, double> a;
    accumulator_set<double, stats<tag::weighted_sum_kahan, tag::weighted_sum_of_variates_kahan<double, C> >, double> b;
    accumulator_set<double, stats<tag::sum_of_variates_kahan<double, C>, tag::mean_of_variates<double, C> > > c;
    double s = 0, w_ = 0, v_ = 0, wv = 0;
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(), w = vf_real(), v = vf_real();
        w_ += w; s += w * x; v_ += v; wv += w * v; vf_assume(w_ != 0);
        a(x, weight = w); b(x, weight = w, covariate1 = v); c(x, covariate1 = v);
        vf_eq(sum_kahan(a), s, "sum"); vf_eq(sum_of_weights_kahan(a), w_, "weights"); vf_eq(mean(a), s / w_, "mean");
        vf_eq(weighted_sum_kahan(b), s, "weighted"); vf_eq(weighted_sum_of_variates_kahan(b), wv, "weighted_variates");
        vf_eq(sum_of_variates_kahan(c), v_, "variates");
        vf_eq((extract_result<tag::mean_of_variates<double, C> >(c)), v_ / (i + 1), "mean_of_variates");
    }
    vf_cover("end");
}

// ---- IEEE rounding (round to nearest, no overflow or underflow).  Samples are multiples of 2^-30; a large first value is
// followed by small ones, all the intermediate differences fit, so the compensated sum stays within an ulp of the exact
// sum however many small values are added, where the plain sum drifts by up to half an ulp each.
static double const q = 1.0 / (1 << 30);
template<typename T> struct kit;
template<> struct kit<float> { static float big() { return 1.0f + (float)vf_int(0, (1 << 22)) * (1.0f / (1 << 23)); }
                               static float small() { return (float)vf_int(-200, 200) * (float)q; }
                               static float tiny() { return (float)vf_int(1, 31) * (float)q; }
                               static double tol() { return 1.0 / (1 << 23); } };
// the sum in exact integer units of 2^-30 (double holds it exactly)
NOINLINE void near_(double got, double exact, double tol, char const *tag)
{
    double d = got - exact;
    vf_assert(d <= tol && d >= -tol, tag);
}
// @cfg h_round_float round=1
// @bound h_round_float float samples: one of 1+k*2^-23, k<2^22, then 1..8 (thorough 14) multiples of 2^-30 up to 200 in magnitude, IEEE rounding
HARNESS(h_round_float)
{
    accumulator_set<float, stats<tag::sum_kahan> > a;
    float b = kit<float>::big(); double s = b;
    a(b);
    int n = VF_T(8, 14);
    for (int i = 0; i < n; ++i)
    {
        float x = kit<float>::small(); s += (double)x;
        a(x);
        near_(sum_kahan(a), s, kit<float>::tol(), "compensated");
    }
    vf_cover("end");
}
// each increment alone is below half an ulp of the running sum
// @cfg h_round_tiny round=1
// @bound h_round_tiny float: 1 + k*2^-23, then 24 additions of one same value below half an ulp
HARNESS(h_round_tiny)
{
    accumulator_set<float, stats<tag::sum_kahan> > a;
    float b = kit<float>::big(), x = kit<float>::tiny(); double s = b;
    a(b);
    for (int i = 0; i < 24; ++i) { a(x); s += (double)x; }
    near_(sum_kahan(a), s, kit<float>::tol(), "compensated");
    vf_cover("end");
}
// @cfg h_round_init round=1
// @bound h_round_init as h_round_tiny, the large value being the initial one
HARNESS(h_round_init)
{
    float b = kit<float>::big(), x = kit<float>::tiny(); double s = b;
    accumulator_set<float, stats<tag::sum_kahan> > a(sample = b);
    for (int i = 0; i < 24; ++i) { a(x); s += (double)x; }
    near_(sum_kahan(a), s, kit<float>::tol(), "compensated");
    vf_cover("end");
}
// @cfg h_round_negative round=1
// @bound h_round_negative float: -(1 + k*2^-23), then 24 additions of one same value below half an ulp
HARNESS(h_round_negative)
{
    accumulator_set<float, stats<tag::sum_kahan> > a;
    float b = -kit<float>::big(), x = -kit<float>::tiny(); double s = b;
    a(b);
    for (int i = 0; i < 24; ++i) { a(x); s += (double)x; }
    near_(sum_kahan(a), s, kit<float>::tol(), "compensated");
    vf_cover("end");
}
// @cfg h_round_weights round=1
// @bound h_round_weights float weights: 1 + k*2^-23, then 8 multiples of 2^-30 up to 200 in magnitude
HARNESS(h_round_weights)
{
    accumulator_set<float, stats<tag::sum_of_weights_kahan>, float> a;
    float b = kit<float>::big(); double s = b;
    a(0.f, weight = b);
    for (int i = 0; i < 8; ++i)
    {
        float x = kit<float>::small(); s += (double)x;
        a(1.f, weight = x);
        near_(sum_of_weights_kahan(a), s, kit<float>::tol(), "compensated");
    }
    vf_cover("end");
}
// @cfg h_round_variates round=1
// @bound h_round_variates float variates: 1 + k*2^-23, then 8 multiples of 2^-30 up to 200 in magnitude
HARNESS(h_round_variates)
{
    accumulator_set<float, stats<tag::sum_of_variates_kahan<float, tag::covariate1> > > a;
    float b = kit<float>::big(); double s = b;
    a(0.f, covariate1 = b);
    for (int i = 0; i < 8; ++i)
    {
        float x = kit<float>::small(); s += (double)x;
        a(1.f, covariate1 = x);
        near_(sum_of_variates_kahan(a), s, kit<float>::tol(), "compensated");
    }
    vf_cover("end");
}
// @cfg h_round_weighted round=1
// @bound h_round_weighted float samples as in h_round_float with weights 1, 2 or 0.5
HARNESS(h_round_weighted)
{
    accumulator_set<float, stats<tag::sum_kahan>, float> a;
    accumulator_set<float, stats<tag::weighted_sum_of_variates_kahan<float, tag::covariate1> >, float> c;
    float b = kit<float>::big(); double s = b;
    a(b, weight = 1.f); c(0.f, weight = 1.f, covariate1 = b);
    float const ws[3] = { 2.f, 0.5f, 1.f };
    int p = vf_choice(3);
    for (int i = 0; i < 6; ++i)
    {
        float x = kit<float>::small(), w = ws[(i + p) % 3]; s += (double)x * (double)w;
        a(x, weight = w); c(0.f, weight = w, covariate1 = x);
        near_(sum_kahan(a), s, kit<float>::tol(), "compensated"); near_(weighted_sum_of_variates_kahan(c), s, kit<float>::tol(), "variates");
    }
    vf_cover("end");
}
// double precision: values are multiples of 2^-60; the comparison is made in units that double holds exactly
// @cfg h_round_double round=1
// @bound h_round_double double: 1, then 8 multiples of 2^-60 up to 200 in magnitude
HARNESS(h_round_double)
{
    accumulator_set<double, stats<tag::sum_kahan> > a;
    a(1.0);
    double s = 0;           // sum of the small ones, exact
    for (int i = 0; i < 8; ++i)
    {
        double x = (double)vf_int(-200, 200) * q * q; s += x;
        a(x);
        near_(sum_kahan(a) - 1.0, s, 1.0 / (1L << 52), "compensated");
    }
    vf_cover("end");
}

// samples, weights and variates of different types
template<typename T, typename W, typename V> NOINLINE void mixed_kahan()
{
    typedef tag::covariate1 C;
    accumulator_set<T, stats<tag::sum_kahan, tag::sum_of_weights_kahan, tag::mean>, W> a;
    accumulator_set<T, stats<tag::weighted_sum_kahan, tag::weighted_sum_of_variates_kahan<V, C> >, W> b;
    accumulator_set<T, stats<tag::sum_of_variates_kahan<V, C>, tag::sum_kahan> > c;
    accumulator_set<T, stats<tag::sum_of_weights_kahan>, W> d(weight = (W)5);
    double s = 0, u = 0, w_ = 0, v_ = 0, wv = 0;
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); W w = fresh<W>(); V v = fresh<V>();
        w_ += (double)w; s += (double)w * (double)x; u += (double)x; v_ += (double)v; wv += (double)w * (double)v; vf_assume(w_ != 0);
        a(x, weight = w); b(x, weight = w, covariate1 = v); c(x, covariate1 = v); d(x, weight = w);
        vf_eq(sum_kahan(a), s, "sum"); vf_eq(sum_of_weights_kahan(a), w_, "weights"); vf_eq(mean(a), s / w_, "mean");
        vf_eq(weighted_sum_kahan(b), s, "weighted"); vf_eq(weighted_sum_of_variates_kahan(b), wv, "weighted_variates");
        vf_eq(sum_of_variates_kahan(c), v_, "variates"); vf_eq(sum_kahan(c), u, "unweighted"); vf_eq(sum_of_weights_kahan(d), w_ + 5, "weights_init");
    }
    vf_cover("end");
}
// @bound h_mixed_types 1..3 samples, weights and variates: int/real/real, real/int/real, real/real/int, int/real/int
HARNESS(h_mixed_types)
{
    switch (vf_choice(4)) { case 0: mixed_kahan<int, double, double>(); break; case 1: mixed_kahan<double, int, double>(); break;
        case 2: mixed_kahan<double, double, int>(); break; default: mixed_kahan<int, double, int>(); }
}
