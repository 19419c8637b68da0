#include "common.h"
#include "fresh.h"
#include "p2ref.h"
#include "p2step.h"
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators;
typedef accumulator_set<double, stats<tag::p_square_quantile> > PQ;
typedef accumulator_set<double, stats<tag::p_square_quantile_for_median> > PM;

NOINLINE void feed(PQ &a, p2ref &r, double x) { a(x); r.add(x); }
NOINLINE void cmp(PQ const &a, p2ref const &r)
{
    double e = p_square_quantile(a);
    vf_eq(e, r.q[2], "estimate"); vf_assert(r.q[0] <= e && e <= r.q[4], "range");
}
static double anyp() { double p = vf_real(); vf_assume(p > 0 && p < 1); return p; }

// any order of the first five samples
// @bound h_five 5 reals in any order, then 1 real; any probability in (0,1)
HARNESS(h_five)
{
    double p = anyp();
    PQ a(quantile_probability = p); p2ref r; p2_quantile(r, p);
    for (int i = 0; i < 5; ++i) feed(a, r, vf_real());
    cmp(a, r);
    feed(a, r, vf_real());
    cmp(a, r);
    vf_cover("end");
}
// the first five in increasing order, then any stream
NOINLINE void stream(int N, double p, bool distinct)
{
    PQ a(quantile_probability = p); p2ref r; p2_quantile(r, p);
    double x = vf_real();
    feed(a, r, x);
    for (int i = 1; i < 5; ++i) { double d = vf_real(); vf_assume(distinct ? d > 0 : d >= 0); x += d; feed(a, r, x); }
    for (int i = 0; i < N; ++i) { feed(a, r, vf_real()); cmp(a, r); }
    vf_cover("end");
}
// @bound h_stream 5 nondecreasing reals, then 2 reals; any probability in (0,1)
HARNESS(h_stream) { stream(2, anyp(), false); }
// @bound h_stream3 5 increasing reals, then 3 reals; any probability in (0,1)
// @thorough h_stream3
HARNESS(h_stream3) { stream(3, anyp(), true); }
// @bound h_median3 5 increasing reals, then 3 reals; probability 1/2
HARNESS(h_median3) { stream(3, 0.5, true); }
// @bound h_low4 5 increasing reals, then 4 reals; probability 0.01
// @thorough h_low4
HARNESS(h_low4) { stream(4, 0.01, true); }
// @bound h_high4 5 increasing reals, then 4 reals; probability 0.9
// @thorough h_high4
HARNESS(h_high4) { stream(4, 0.9, true); }

// state reached after a longer concrete history, then arbitrary samples
NOINLINE void history(int H, int N, int mul, int mod)
{
    static double const ps[7] = { 0.001, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99 };
    double p = ps[vf_choice(7)];
    PQ a(quantile_probability = p); p2ref r; p2_quantile(r, p);
    for (int i = 0; i < H; ++i) feed(a, r, (double)((i * mul) % mod));
    cmp(a, r);
    for (int i = 0; i < N; ++i) { feed(a, r, vf_real()); cmp(a, r); }
    vf_cover("end");
}
// @bound h_history20 20 fixed samples, then 2 reals; 7 probabilities
HARNESS(h_history20) { history(20, 2, 37, 101); }
// @bound h_history21 21 fixed samples with repetitions, then 2 reals; 7 probabilities
HARNESS(h_history21) { history(21, 2, 7, 9); }
// @bound h_history100 100 fixed samples, then 1 real; 7 probabilities
HARNESS(h_history100) { history(100, VF_T(1, 2), 37, 101); }
// @bound h_history7 7 fixed samples, then 3 reals; 7 probabilities
// @thorough h_history7
HARNESS(h_history7) { history(7, 3, 37, 101); }
// an arbitrary sample early in a longer stream
// @bound h_early 24 samples, number 12 arbitrary (thorough: 40 samples, numbers 3 and 12), read at the end; probability 0.5 or 0.9
HARNESS(h_early)
{
    double p = vf_choice(2) ? 0.5 : 0.9;
    PQ a(quantile_probability = p); p2ref r; p2_quantile(r, p);
    for (int i = 0; i < VF_T(24, 40); ++i) feed(a, r, i == 12 || (VF_T(0, 1) && i == 3) ? vf_real() : (double)((i * 37) % 101));
    cmp(a, r);
    vf_cover("end");
}
// monotone streams of arbitrary steps
// @bound h_up 7 (thorough 9) reals, increasing or decreasing by arbitrary steps; 7 probabilities
HARNESS(h_up)
{
    static double const ps[7] = { 0.001, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99 };
    double p = ps[vf_choice(7)];
    PQ a(quantile_probability = p); p2ref r; p2_quantile(r, p);
    bool up = vf_choice(2); double x = vf_real();
    feed(a, r, x);
    for (int i = 1; i < VF_T(7, 9); ++i) { double d = vf_real(); vf_assume(d >= 0); x = up ? x + d : x - d; feed(a, r, x); if (i >= 4) cmp(a, r); }
    vf_cover("end");
}
// all equal
// @bound h_equal 5..12 equal reals, any probability in (0,1)
HARNESS(h_equal)
{
    double p = anyp();
    PQ a(quantile_probability = p); double x = vf_real();
    for (int i = 0; i < 12; ++i) { a(x); if (i >= 4) vf_eq(p_square_quantile(a), x, "equal"); }
    vf_cover("end");
}
// translation, reflection-free scaling
// @bound h_equivariant 5 increasing reals then 2 reals, any shift, scales 1/2 and 3; probability 0.25
HARNESS(h_equivariant)
{
    double b = vf_real(), s = vf_choice(2) ? 0.5 : 3;
    PQ a(quantile_probability = 0.25), c(quantile_probability = 0.25);
    double x = vf_real();
    for (int i = 0; i < 7; ++i)
    {
        if (i && i < 5) { double d = vf_real(); vf_assume(d > 0); x += d; } else x = vf_real();
        a(x); c(s * x + b);
    }
    vf_eq(p_square_quantile(c), s * p_square_quantile(a) + b, "equivariant");
    vf_cover("end");
}
// the median flavour ignores the probability argument
// @bound h_for_median 5 nondecreasing reals then 2 reals
HARNESS(h_for_median)
{
    PM a(quantile_probability = 0.9); PM b; p2ref r; p2_quantile(r, 0.5);
    double x = vf_real();
    for (int i = 0; i < 7; ++i)
    {
        if (i && i < 5) { double d = vf_real(); vf_assume(d >= 0); x += d; } else x = vf_real();
        a(x); b(x); r.add(x);
        if (i >= 4) { vf_eq(p_square_quantile_for_median(a), r.q[2], "estimate"); vf_eq(p_square_quantile_for_median(b), r.q[2], "estimate2"); }
    }
    vf_cover("end");
}
// default probability is one half; float and int samples
template<typename T> NOINLINE void typed()
{
    accumulator_set<T, stats<tag::p_square_quantile> > a; p2ref r; p2_quantile(r, 0.5);
    T x = fresh<T>(); a(x); r.add(x);
    for (int i = 1; i < 7; ++i)
    {
        T y = fresh<T>(); if (i < 5) { vf_assume(y >= x); x = y; }
        a(y); r.add((double)y);
        if (i >= 4) vf_eq(p_square_quantile(a), r.q[2], "estimate");
    }
    vf_cover("end");
}
// @bound h_float 5 nondecreasing floats (real arithmetic) then 2, default probability
HARNESS(h_float) { typed<float>(); }
// @bound h_int 5 nondecreasing ints in -1000..1000 then 2, default probability
HARNESS(h_int) { typed<int>(); }
// @bound h_history300 300 fixed samples, then 1 real; 7 probabilities
HARNESS(h_history300) { history(300, 1, 37, 311); }
// inductive step: from an arbitrary state of the markers after n samples, the next ones do exactly what the algorithm prescribes
// @bound h_step any nondecreasing heights; n = 25, 1000, 200003 or 2^33+1 samples so far; inner positions around the desired ones (6 patterns); probability 0.1, 0.5 or 0.8; one arbitrary sample and a fixed distance from it the next
HARNESS(h_step)
{
    static double const ps[3] = { 0.1, 0.5, 0.8 }, ns[4] = { 25, 1000, 200003, 8589934593.0 };
    double p = ps[vf_choice(3)], n = ns[vf_choice(4)];
    PQ a(quantile_probability = p); p2ref r; p2_quantile(r, p);
    for (int i = 0; i < 18; ++i) feed(a, r, 100 + (double)((i * 7) % 19));
    if (!p2_inject(a, r, 18, n, 22)) return;
    cmp(a, r);
    double x = vf_real(); feed(a, r, x);
    cmp(a, r);
    feed(a, r, x + 1);
    cmp(a, r);
    vf_assert(count(a) == (std::size_t)n + 2, "count");
    vf_cover("end");
}
