#include "common.h"
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;

template<typename T> inline T fr();
template<> inline double fr<double>() { return vf_real_in(-1e300, 1e300); }
template<> inline float fr<float>() { return (float)vf_real_in(-1e30, 1e30); }
template<> inline int fr<int>() { return (int)vf_int(-2147483647L - 1, 2147483647L); }
template<> inline long fr<long>() { return vf_int(-4000000000000000000L, 4000000000000000000L); }
template<> inline unsigned fr<unsigned>() { return (unsigned)vf_int(0, 4294967295L); }
template<> inline short fr<short>() { return (short)vf_int(-32768, 32767); }
template<> inline signed char fr<signed char>() { return (signed char)vf_int(-128, 127); }

template<typename T> NOINLINE void run(int N)
{
    accumulator_set<T, stats<tag::min, tag::max, tag::count> > a;
    accumulator_set<T, stats<tag::max> > b;
    accumulator_set<T, stats<tag::min> > c;
    T xs[16];
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        xs[i] = fr<T>();
        a(xs[i]); b(xs[i]); c(xs[i]);
        T lo = (min)(a), hi = (max)(a);
        bool inlo = false, inhi = false, okl = true, okh = true;
        for (int k = 0; k <= i; ++k)
        {
            inlo |= lo == xs[k]; inhi |= hi == xs[k];
            okl &= !(xs[k] < lo); okh &= !(hi < xs[k]);
        }
        vf_assert(inlo, "min_is_a_sample"); vf_assert(okl, "min_below_all");
        vf_assert(inhi, "max_is_a_sample"); vf_assert(okh, "max_above_all");
        vf_assert((max)(b) == hi, "max_alone"); vf_assert((min)(c) == lo, "min_alone");
    }
    vf_cover("end");
}
// @bound h_double every stream of 1..5 (thorough 7) reals, |x|<=1e300
HARNESS(h_double) { run<double>(VF_T(5, 7)); }
// @bound h_float every stream of 1..4 floats
HARNESS(h_float) { run<float>(VF_T(4, 5)); }
// @bound h_int every stream of 1..4 ints, full range
HARNESS(h_int) { run<int>(VF_T(4, 5)); }
// @bound h_long every stream of 1..3 longs
HARNESS(h_long) { run<long>(VF_T(3, 4)); }
// @bound h_unsigned every stream of 1..4 unsigneds, full range
HARNESS(h_unsigned) { run<unsigned>(VF_T(4, 5)); }
// @bound h_short every stream of 1..3 shorts, full range
HARNESS(h_short) { run<short>(VF_T(3, 4)); }
// @bound h_schar every stream of 1..3 signed chars, full range
HARNESS(h_schar) { run<signed char>(VF_T(3, 4)); }

// weights and variates do not influence the extremes
// @bound h_weighted every stream of 1..4 samples with arbitrary weights (zero and negative included) and variates
HARNESS(h_weighted)
{
    accumulator_set<double, stats<tag::min, tag::max>, double> a;
    double lo = 0, hi = 0;
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real_in(-1e300, 1e300), w = vf_real();
        a(x, weight = w, covariate1 = w);
        if (i == 0 || x < lo) lo = x;
        if (i == 0 || x > hi) hi = x;
        vf_eq((min)(a), lo, "min"); vf_eq((max)(a), hi, "max");
    }
    vf_cover("end");
}
// from any state: one further sample
// @bound h_step arbitrary previous minimum and maximum, one arbitrary sample
HARNESS(h_step)
{
    accumulator_set<double, stats<tag::min, tag::max> > a;
    inject ar("dd"); a.serialize(ar, 0); ar.done();
    double lo = (min)(a), hi = (max)(a), x = vf_real();
    a(x);
    vf_eq((min)(a), x < lo ? x : lo, "min"); vf_eq((max)(a), x > hi ? x : hi, "max");
    vf_cover("end");
}
// long history with late extremes
// @bound h_long_history 400 samples, 3 arbitrary
HARNESS(h_long_history)
{
    accumulator_set<double, stats<tag::min, tag::max> > a;
    double lo = 1e9, hi = -1e9;
    for (int i = 0; i < 400; ++i)
    {
        double x = (i == 2 || i == 257 || i == 399) ? vf_real_in(-1000, 1000) : (double)(i % 13) - 6;
        a(x);
        lo = x < lo ? x : lo; hi = x > hi ? x : hi;
        if (i > 397 || i == 258) { vf_eq((min)(a), lo, "min"); vf_eq((max)(a), hi, "max"); }
    }
    vf_cover("end");
}

// IEEE values: the extremes are the very samples, bit for bit
// @cfg h_ieee round=1
// @bound h_ieee 1..4 doubles that are integers below 2^50 in magnitude
HARNESS(h_ieee)
{
    long const R = 1L << 50;
    accumulator_set<double, stats<tag::min, tag::max> > a;
    int n = 1 + vf_choice(4);
    bool fmin = false, fmax = false; double xs[4];
    for (int i = 0; i < n; ++i) { xs[i] = (double)vf_int(-R, R); a(xs[i]); }
    for (int i = 0; i < n; ++i) { fmin = fmin || (min)(a) == xs[i]; fmax = fmax || (max)(a) == xs[i]; }
    vf_assert(fmin, "min"); vf_assert(fmax, "max");
    vf_cover("end");
}
// integer extremes are the very samples: no detour over a floating type
// @cfg h_ieee_long round=1
// @bound h_ieee_long 1..4 longs up to 2^62 in magnitude
HARNESS(h_ieee_long)
{
    long const R = 1L << 62;
    accumulator_set<long, stats<tag::min, tag::max> > a;
    int n = 1 + vf_choice(4);
    bool fmin = false, fmax = false; long xs[4];
    for (int i = 0; i < n; ++i) { xs[i] = vf_int(-R, R); a(xs[i]); }
    for (int i = 0; i < n; ++i) { fmin = fmin || (min)(a) == xs[i]; fmax = fmax || (max)(a) == xs[i]; vf_assert((min)(a) <= xs[i], "min_bound"); vf_assert((max)(a) >= xs[i], "max_bound"); }
    vf_assert(fmin, "min"); vf_assert(fmax, "max");
    vf_cover("end");
}
