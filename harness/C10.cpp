#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;

// the mean of integers is a double, that of a floating type has that type
template<typename T> struct mean_of { typedef double type; };
template<> struct mean_of<float> { typedef float type; };
template<typename T> NOINLINE void same_type(T const &, T const &) {}
template<typename T, typename U> NOINLINE void same_type(T const &, U const &) { vf_assert(false, "type_of_mean"); }

// every stream of up to N samples, lazy and immediate mean together, observed after every sample
template<typename T> NOINLINE void basic(int N)
{
    accumulator_set<T, stats<tag::count, tag::sum, tag::mean> > lazy;
    accumulator_set<T, stats<tag::mean(immediate)> > imm;
    vf_assert(count(lazy) == 0, "count0");
    vf_eq((double)sum(lazy), 0, "sum0");
    double s = 0;
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>();
        s += (double)x;
        lazy(x); imm(x);
        vf_assert(count(lazy) == (std::size_t)(i + 1), "count");
        vf_assert(count(imm) == (std::size_t)(i + 1), "count_imm");
        vf_eq((double)sum(lazy), s, "sum");
        vf_eq((double)mean(lazy), s / (i + 1), "mean_lazy");
        vf_eq((double)mean(imm), s / (i + 1), "mean_immediate");
    }
    same_type(typename mean_of<T>::type(), mean(lazy)); same_type(typename mean_of<T>::type(), mean(imm));
    vf_cover("end");
}
// @bound h_double every stream of 1..12 (thorough 40) real samples
HARNESS(h_double) { basic<double>(VF_T(12, 40)); }
// @bound h_float 1..6 float samples
HARNESS(h_float) { basic<float>(6); }
// @bound h_int 1..8 int samples in [-1000,1000]
HARNESS(h_int) { basic<int>(8); }
// @bound h_long 1..5 long samples
HARNESS(h_long) { basic<long>(5); }
// @bound h_unsigned 1..5 unsigned samples in [0,4e6]
HARNESS(h_unsigned) { basic<unsigned>(5); }
// @bound h_short 1..5 short samples in [-100,100]
HARNESS(h_short) { basic<short>(5); }
// @bound h_uchar 1..5 unsigned char samples in [0,20]
HARNESS(h_uchar) { basic<unsigned char>(5); }

// the initial value given at construction is where the sum starts
// @bound h_init initial value and 0..3 samples arbitrary
HARNESS(h_init)
{
    double v0 = vf_real();
    accumulator_set<double, stats<tag::sum, tag::count> > a(sample = v0);
    accumulator_set<double, stats<tag::sum> > b(v0);
    double s = v0;
    vf_eq(sum(a), v0, "init"); vf_eq(sum(b), v0, "init_pos");
    int n = vf_choice(4);
    for (int i = 0; i < n; ++i) { double x = vf_real(); s += x; a(x); b(x); }
    vf_eq(sum(a), s, "sum"); vf_eq(sum(b), s, "sum_pos");
    vf_assert(count(a) == (std::size_t)n, "count");
    vf_cover("end");
}

// several samples in one call are one sample plus parameters; extraction through extract_result and named accessors agree
// @bound h_access 1..4 samples
HARNESS(h_access)
{
    accumulator_set<double, features<tag::mean, tag::sum, tag::count> > a;
    int n = 1 + vf_choice(4); double s = 0;
    for (int i = 0; i < n; ++i) { double x = vf_real(); s += x; if (i % 2) a(sample = x); else a(x); }
    vf_eq(extract_result<tag::mean>(a), s / n, "extract_result");
    vf_eq(extract::mean(a), s / n, "extract");
    vf_eq(find_accumulator<tag::sum>(a).result(0), s, "find");
    vf_cover("end");
}

// weights
// @bound h_weights 1..4 weighted samples, arbitrary weights
HARNESS(h_weights)
{
    accumulator_set<double, stats<tag::sum_of_weights, tag::mean_of_weights, tag::count>, double> a;
    accumulator_set<double, stats<tag::mean_of_weights(immediate)>, double> b;
    int n = 1 + vf_choice(4); double sw = 0;
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(), w = vf_real();
        sw += w;
        a(x, weight = w); b(x, weight = w);
        vf_assert(count(a) == (std::size_t)(i + 1), "count");
        vf_eq(sum_of_weights(a), sw, "sum_of_weights");
        vf_eq(mean_of_weights(a), sw / (i + 1), "mean_of_weights");
        vf_eq(mean_of_weights(b), sw / (i + 1), "imm_mean_of_weights");
    }
    vf_cover("end");
}
// @bound h_int_weights 1..4 samples, int weights
HARNESS(h_int_weights)
{
    accumulator_set<int, stats<tag::sum_of_weights, tag::mean_of_weights, tag::count>, int> a;
    accumulator_set<int, stats<tag::mean_of_weights(immediate)>, int> b;
    int n = 1 + vf_choice(4); double sw = 0;
    for (int i = 0; i < n; ++i)
    {
        int x = (int)vf_int(-100, 100), w = (int)vf_int(-100, 100);
        sw += w;
        a(x, weight = w); b(x, weight = w);
        vf_eq(sum_of_weights(a), sw, "sum_of_weights");
        vf_eq(mean_of_weights(a), sw / (i + 1), "mean_of_weights");
        vf_eq(mean_of_weights(b), sw / (i + 1), "imm_mean_of_weights");
    }
    vf_cover("end");
}
// variates: two of them, of different types, given in any order
template<typename T, typename V1, typename V2> NOINLINE void variates()
{
    accumulator_set<T, stats<tag::sum_of_variates<V1, tag::covariate1>, tag::mean_of_variates<V1, tag::covariate1>,
        tag::count, tag::mean> > a;
    accumulator_set<T, stats<tag::mean_of_variates<V2, tag::covariate2>, tag::mean> > c;
    accumulator_set<T, stats<tag::mean_of_variates<V1, tag::covariate1>(immediate), tag::mean(immediate),
        tag::mean_of_variates<V2, tag::covariate2>(immediate) > > b;
    int n = 1 + vf_choice(4); double s = 0, s1 = 0, s2 = 0;
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); V1 v = fresh<V1>(); V2 u = fresh<V2>();
        s += x; s1 += v; s2 += u;
        a(x, covariate1 = v, covariate2 = u);
        c(x, covariate1 = v, covariate2 = u);
        b(x, covariate2 = u, covariate1 = v);
        vf_eq((extract_result<tag::sum_of_variates<V1, tag::covariate1> >(a)), s1, "sum_of_variates");
        vf_eq((extract_result<tag::mean_of_variates<V1, tag::covariate1> >(a)), s1 / (i + 1), "mean_of_variates1");
        vf_eq((extract_result<tag::mean_of_variates<V2, tag::covariate2> >(c)), s2 / (i + 1), "mean_of_variates2");
        vf_eq((extract_result<tag::mean_of_variates<V1, tag::covariate1> >(b)), s1 / (i + 1), "imm_mean_of_variates1");
        vf_eq((extract_result<tag::mean_of_variates<V2, tag::covariate2> >(b)), s2 / (i + 1), "imm_mean_of_variates2");
        vf_eq(mean(a), s / (i + 1), "mean");
        vf_eq(mean(b), s / (i + 1), "imm_mean");
        vf_assert(count(a) == (std::size_t)(i + 1), "count");
    }
    vf_cover("end");
}
// @bound h_variates 1..4 samples with two covariates
HARNESS(h_variates) { variates<double, double, double>(); }
// @bound h_variates_mixed 1..4 samples, int and double covariates
HARNESS(h_variates_mixed) { variates<int, double, int>(); }

// long histories: mostly concrete samples, four arbitrary ones at chosen places
// @bound h_long_history 700 (thorough 5000) samples, 4 of them arbitrary
HARNESS(h_long_history)
{
    accumulator_set<double, stats<tag::mean(immediate), tag::sum> > imm;
    accumulator_set<double, stats<tag::mean> > lazy;
    accumulator_set<int, stats<tag::mean(immediate)> > ii;
    int const N = VF_T(700, 5000);
    double s = 0, si = 0;
    for (int i = 0; i < N; ++i)
    {
        double x = (i == 3 || i == 255 || i == 256 || i == N - 2) ? vf_real() : (double)(i % 7) - 3;
        int k = (i * 5) % 11 - 4;
        s += x; imm(x); lazy(x);
        si += k; ii(k);
        if (i % 100 == 0 || i > N - 4)
        {
            vf_eq(mean(imm), s / (i + 1), "mean_imm");
            vf_eq(mean(lazy), s / (i + 1), "mean_lazy");
            vf_eq(mean(ii), si / (i + 1), "mean_int");
            vf_eq(sum(imm), s, "sum");
            vf_assert(count(lazy) == (std::size_t)(i + 1), "count");
        }
    }
    vf_cover("end");
}

// inductive step: from any state in which the invariant holds, one more sample preserves it
// @bound h_step arbitrary consistent state with any count in [0,2^40], one arbitrary sample
HARNESS(h_step)
{
    accumulator_set<double, stats<tag::count, tag::sum, tag::mean> > a;
    inject ar("zd"); a.serialize(ar, 0); ar.done();
    std::size_t n = count(a); double s = sum(a), x = vf_real();
    a(x);
    vf_assert(count(a) == n + 1, "count");
    vf_eq(sum(a), s + x, "sum");
    vf_eq(mean(a), (s + x) / (double)(n + 1), "mean");
    vf_cover("end");
}
// @bound h_step_imm arbitrary state, any count in [0,2^40], one arbitrary sample
HARNESS(h_step_imm)
{
    accumulator_set<double, stats<tag::count, tag::mean(immediate)> > a;
    inject ar("zd"); a.serialize(ar, 0); ar.done();
    std::size_t n = count(a); double m = mean(a), x = vf_real();
    a(x);
    vf_assert(count(a) == n + 1, "count");
    vf_eq(mean(a), (m * (double)n + x) / (double)(n + 1), "mean");
    vf_cover("end");
}

// IEEE arithmetic: sums that double represents are reported exactly (no intermediate loss of precision)
// @cfg h_ieee_sum round=1
// @bound h_ieee_sum 1..4 doubles that are integers below 2^40 in magnitude; sums, initial values, variates and weights compared bit for bit
HARNESS(h_ieee_sum)
{
    long const R = 1L << 40;
    double s0 = (double)vf_int(-R, R), s = 0, v_ = 0, w_ = 0, ws = 0;
    accumulator_set<double, stats<tag::sum, tag::count, tag::sum_of_variates<double, tag::covariate1> > > a;
    accumulator_set<double, stats<tag::sum> > b(sample = s0);
    accumulator_set<double, stats<tag::sum_of_weights, tag::sum>, double> w;
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        double x = (double)vf_int(-R, R), v = (double)vf_int(-R, R), t = (double)vf_int(-R, R), p = 1 << vf_choice(2);
        s += x; v_ += v; w_ += t; ws += t * p;
        a(x, covariate1 = v); b(x); w(t, weight = p); 
        vf_assert(sum(a) == s, "sum"); vf_assert(sum(b) == s0 + s, "sum_init");
        vf_assert(sum_of_variates(a) == v_, "variates"); vf_assert(sum(w) == ws, "weighted_sum");
    }
    vf_cover("end");
}
// integer sums are integers: no detour over a floating type
// @cfg h_ieee_long round=1
// @bound h_ieee_long 1..4 longs up to 2^60 in magnitude, unsigned longs up to 2^61: sums of samples, weights and variates exact to the unit
HARNESS(h_ieee_long)
{
    long const R = 1L << 60;
    accumulator_set<long, stats<tag::sum, tag::count, tag::sum_of_variates<long, tag::covariate1> > > a;
    accumulator_set<unsigned long, stats<tag::sum> > u;
    accumulator_set<long, stats<tag::sum_of_weights, tag::sum>, long> w;
    int n = 1 + vf_choice(4); long s = 0, v_ = 0, w_ = 0, ws = 0; unsigned long us = 0;
    for (int i = 0; i < n; ++i)
    {
        long x = vf_int(-R, R), v = vf_int(-R, R), t = vf_int(-R, R), p = 1 + vf_choice(2); unsigned long z = (unsigned long)vf_int(0, 2 * R);
        s += x; v_ += v; w_ += p; ws += t / 2 * p; us += z;
        a(x, covariate1 = v); w(t / 2, weight = p); u(z);
        vf_assert(sum(a) == s, "sum"); vf_assert(sum(u) == us, "unsigned_sum");
        vf_assert(sum_of_variates(a) == v_, "variates"); vf_assert(sum(w) == ws, "weighted_sum"); vf_assert(sum_of_weights(w) == w_, "weights");
    }
    vf_cover("end");
}

// samples, weights and variates of different types
template<typename T, typename W> NOINLINE void weights_of()
{
    accumulator_set<T, stats<tag::sum_of_weights, tag::mean_of_weights, tag::count>, W> a;
    accumulator_set<T, stats<tag::mean_of_weights(immediate)>, W> b;
    accumulator_set<T, stats<tag::sum_of_weights>, W> c(weight = (W)7);
    int n = 1 + vf_choice(3); double sw = 0;
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); W w = fresh<W>();
        sw += (double)w;
        a(x, weight = w); b(x, weight = w); c(x, weight = w);
        vf_eq(sum_of_weights(a), sw, "sum_of_weights"); vf_eq(sum_of_weights(c), sw + 7, "sum_of_weights_init");
        vf_eq(mean_of_weights(a), sw / (i + 1), "mean_of_weights");
        vf_eq(mean_of_weights(b), sw / (i + 1), "imm_mean_of_weights");
    }
    vf_cover("end");
}
// @bound h_weights_mixed 1..3 ints with real weights, or reals with int weights
HARNESS(h_weights_mixed) { if (vf_choice(2)) weights_of<int, double>(); else weights_of<double, int>(); }
