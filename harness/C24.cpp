#include "common.h"
#include "fresh.h"
#include "p2step.h"
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators;
typedef accumulator_set<double, stats<tag::p_square_cumulative_distribution> > PD;
#define CELLS(b) p_square_cumulative_distribution_num_cells = (b)

NOINLINE void p2_cells(p2ref &r, int b) { r.start(b + 1); for (int i = 0; i <= b; ++i) { r.dt[i] = (double)i / b; r.t[i] = i + 1; } }

struct both
{
    PD a; p2ref r; int b, n; double lo, hi;
    NOINLINE explicit both(int b_) : a(CELLS(b_)), b(b_), n(0), lo(0), hi(0) { p2_cells(r, b); }
    NOINLINE void feed(double x, bool track = true)
    {
        a(x); r.add(x); ++n;
        if (track) { if (n == 1) lo = hi = x; else { if (x < lo) lo = x; if (x > hi) hi = x; } }
    }
    NOINLINE void cmp(bool track = true)
    {
        auto h = p_square_cumulative_distribution(a);
        vf_assert((int)h.size() == b + 1, "size");
        for (int i = 0; i <= b; ++i)
        {
            vf_eq(h[i].first, r.q[i], "height"); vf_eq(h[i].second, r.n[i] / n, "probability");
            vf_assert(h[i].second > 0 && h[i].second <= 1, "range");
            if (i) { vf_assert(h[i - 1].first <= h[i].first, "sorted"); vf_assert(h[i - 1].second < h[i].second, "increasing"); }
        }
        vf_eq(h[b].second, 1, "last");
        if (track) { vf_eq(h[0].first, lo, "min"); vf_eq(h[b].first, hi, "max"); }
    }
};
// the first b+1 samples in any order
// @bound h_order 1..3 (thorough 1..4) cells, exactly cells+1 reals in any order, then 0..1 reals
HARNESS(h_order)
{
    int b = 1 + vf_choice(VF_T(3, 4)); both s(b);
    for (int i = 0; i <= b; ++i) s.feed(vf_real());
    s.cmp();
    s.feed(vf_real()); s.cmp();
    vf_cover("end");
}
// sorted start, then any stream
NOINLINE void stream(int b, int N, bool strict)
{
    both s(b); double x = vf_real();
    s.feed(x);
    for (int i = 1; i <= b; ++i) { double d = vf_real(); vf_assume(strict ? d > 0 : d >= 0); x += d; s.feed(x); }
    for (int i = 0; i < N; ++i) { s.feed(vf_real()); s.cmp(); }
    vf_cover("end");
}
// @bound h_stream1 1 cell, 2 nondecreasing reals then 3 reals
HARNESS(h_stream1) { stream(1, 3, false); }
// @bound h_stream2 2 cells, 3 nondecreasing reals then 3 reals
HARNESS(h_stream2) { stream(2, VF_T(3, 4), false); }
// @bound h_stream3 3 cells, 4 nondecreasing reals then 3 reals
HARNESS(h_stream3) { stream(3, 3, false); }
// @bound h_stream4 4 cells, 5 increasing reals then 2 (thorough 3) reals
HARNESS(h_stream4) { stream(4, VF_T(2, 3), true); }
// @bound h_stream5 5 cells, 6 increasing reals then 2 (thorough 3) reals
HARNESS(h_stream5) { stream(5, VF_T(2, 3), true); }

NOINLINE void history(int b, int H, int N, int mul, int mod)
{
    both s(b);
    for (int i = 0; i < H; ++i) s.feed((double)((i * mul) % mod));
    s.cmp();
    for (int i = 0; i < N; ++i) { s.feed(vf_real()); s.cmp(); }
    vf_cover("end");
}
// @bound h_history 2..6 cells, 25 fixed samples, then 2 reals
HARNESS(h_history) { history(2 + vf_choice(5), 25, 2, 37, 101); }
// @bound h_history_rep 2..6 cells, 21 fixed samples with repetitions, then 2 reals
HARNESS(h_history_rep) { history(2 + vf_choice(5), 21, 2, 7, 9); }
// @bound h_history100 4 or 10 cells, 100 fixed samples, then 1 real
HARNESS(h_history100) { history(vf_choice(2) ? 4 : 10, 100, 1, 37, 101); }
// @bound h_early 4 cells, 24 samples, number 9 arbitrary (thorough: numbers 2 and 9), read at the end
HARNESS(h_early)
{
    both s(4);
    for (int i = 0; i < 24; ++i) s.feed(i == 9 || (VF_T(0, 1) && i == 2) ? vf_real() : (double)((i * 37) % 101));
    s.cmp();
    vf_cover("end");
}
// @bound h_up 3 cells, 7 reals, increasing or decreasing by arbitrary steps
HARNESS(h_up)
{
    both s(3); bool up = vf_choice(2); double x = vf_real();
    s.feed(x, false);
    for (int i = 1; i < VF_T(7, 8); ++i) { double d = vf_real(); vf_assume(d >= 0); x = up ? x + d : x - d; s.feed(x, false); if (i >= 3) s.cmp(false); }
    vf_cover("end");
}
// integer samples
// @bound h_int 3 cells, 4 nondecreasing ints then 2 ints in -1000..1000
HARNESS(h_int)
{
    accumulator_set<int, stats<tag::p_square_cumulative_distribution> > a(CELLS(3)); p2ref r; p2_cells(r, 3);
    int x = fresh<int>(); a(x); r.add(x);
    for (int i = 1; i < 6; ++i) { int y = fresh<int>(); if (i < 4) { vf_assume(y >= x); x = y; } a(y); r.add(y); }
    auto h = p_square_cumulative_distribution(a);
    for (int i = 0; i < 4; ++i) { vf_eq(h[i].first, r.q[i], "height"); vf_eq(h[i].second, r.n[i] / 6, "probability"); }
    vf_cover("end");
}
// @bound h_big 24 cells, 150 fixed samples, then 1 real
HARNESS(h_big) { history(24, 150, 1, 37, 151); }
// @bound h_big_rep 40 cells, 130 fixed samples with repetitions, then 1 real
HARNESS(h_big_rep) { history(40, 130, 1, 37, 53); }
// inductive step: from an arbitrary state of the markers after n samples, the next one does exactly what the algorithm prescribes
// @bound h_step 2..4 cells, any nondecreasing heights; n = 30, 1000, 200003 or 2^33+1 samples so far; inner positions around the desired ones (6 patterns); one arbitrary sample
HARNESS(h_step)
{
    static double const ns[4] = { 30, 1000, 200003, 8589934593.0 };
    double n = ns[vf_choice(4)]; int b = 2 + vf_choice(3); both s(b);
    for (int i = 0; i < 18; ++i) s.feed(100 + (double)((i * 7) % 19));
    if (!p2_inject(s.a, s.r, 18, n, 8 + 6 * (b + 1))) return;
    s.feed(vf_real(), false);
    auto h = p_square_cumulative_distribution(s.a);
    vf_assert((int)h.size() == b + 1, "size");
    for (int i = 0; i <= b; ++i) { vf_eq(h[i].first, s.r.q[i], "height"); vf_eq(h[i].second, s.r.n[i] / (n + 1), "probability"); }
    vf_cover("end");
}
