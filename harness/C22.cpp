#include "common.h"
#include "fresh.h"
#include "store.h"
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/density.hpp>
#include <boost/accumulators/statistics/weighted_density.hpp>
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators;
#define RANGE 1e30
static double rl() { return vf_real_in(-RANGE, RANGE); }
template<typename T> struct gen { static T get() { return fresh<T>(); } };
template<> struct gen<double> { static double get() { return rl(); } };
template<> struct gen<float> { static float get() { return (float)rl(); } };
#define CFG(c, b) density_cache_size = (c), density_num_bins = (b)

// The definition.  pos[0..B+1]: lower ends of underflow, the B bins, overflow.
struct hist
{
    int B; double pos[64], h[64], total;
    template<typename T, typename W> NOINLINE void make(T const *x, W const *w, int C, int n, int B_)
    {
        B = B_; total = 0;
        double lo = (double)x[0], hi = (double)x[0];
        for (int i = 1; i < C; ++i) { if ((double)x[i] < lo) lo = (double)x[i]; if ((double)x[i] > hi) hi = (double)x[i]; }
        for (int b = 0; b < B + 2; ++b) { pos[b] = lo + (b - 1) * (hi - lo) / B; h[b] = 0; }
        for (int i = 0; i < n; ++i)
        {
            int b = B + 1;
            while (b > 0 && !((double)x[i] >= pos[b])) { --b; if (b == 0) break; }
            h[b] += w ? (double)w[i] : 1.; total += w ? (double)w[i] : 1.;
        }
    }
    template<typename R> NOINLINE void check(R const &r) const
    {
        vf_assert((int)r.size() == B + 2, "size");
        double s = 0;
        for (int b = 0; b < B + 2; ++b) { vf_eq(r[b].first, pos[b], "position"); vf_eq(r[b].second, h[b] / total, "height"); s += r[b].second; }
        vf_eq(s, 1, "total");
    }
};

template<typename T> NOINLINE void plain(int Cmax, int Bmax, int later)
{
    int C = 1 + vf_choice(Cmax), B = 1 + vf_choice(Bmax), L = vf_choice(later + 1), n = C + L;
    accumulator_set<T, stats<tag::density> > a(CFG(C, B));
    T xs[8]; hist h;
    for (int i = 0; i < n; ++i) { xs[i] = gen<T>::get(); a(xs[i]); }
    h.make(xs, (double *)0, C, n, B); h.check(density(a));
    vf_cover("end");
}
// @bound h_plain cache 1..3, 1..4 bins, 0..1 later samples, reals in -1e30..1e30
HARNESS(h_plain) { plain<double>(VF_T(3, 4), VF_T(4, 5), 1); }
// @bound h_later cache 1..2, 1..4 bins, 0..3 later samples, reals in -1e30..1e30
HARNESS(h_later) { plain<double>(2, VF_T(4, 6), 3); }
// @bound h_later4 cache 2, 2 bins, 0..4 later samples, reals in -1e30..1e30
// @thorough h_later4
HARNESS(h_later4) { plain<double>(2, 2, 4); }
// @bound h_int cache 1..3, 1..3 bins, 0..1 later samples, ints in -1000..1000
HARNESS(h_int) { plain<int>(3, 3, 1); }
// @bound h_float cache 1..2, 1..2 bins, 0..2 later samples, reals in -1e30..1e30 (float)
HARNESS(h_float) { plain<float>(2, 2, 2); }

// histogram read at every moment from the filling of the cache on
// @bound h_reread cache 2, 2 bins, 3 later reals, read after each
HARNESS(h_reread)
{
    accumulator_set<double, stats<tag::density> > a(CFG(2, 2));
    double xs[8]; hist h;
    for (int i = 0; i < 5; ++i)
    {
        xs[i] = rl(); a(xs[i]);
        if (i >= 1) { h.make(xs, (double *)0, 2, i + 1, 2); h.check(density(a)); h.check(density(a)); }
    }
    vf_cover("end");
}

template<typename T, typename W> NOINLINE void wtd(int Cmax, int Bmax, int later)
{
    int C = 1 + vf_choice(Cmax), B = 1 + vf_choice(Bmax), L = vf_choice(later + 1), n = C + L;
    accumulator_set<T, stats<tag::weighted_density>, W> a(CFG(C, B));
    T xs[8]; W ws[8]; hist h;
    for (int i = 0; i < n; ++i) { xs[i] = gen<T>::get(); ws[i] = gen<W>::get(); vf_assume(ws[i] > 0); a(xs[i], weight = ws[i]); }
    h.make(xs, ws, C, n, B); h.check(weighted_density(a));
    vf_cover("end");
}
// @bound h_weighted cache 1..3, 1..3 bins, 0..1 later samples, reals in -1e30..1e30 with positive real weights
HARNESS(h_weighted) { wtd<double, double>(3, VF_T(3, 4), 1); }
// @bound h_weighted_later cache 1..2, 1..2 bins, 0..2 later samples, reals in -1e30..1e30 with positive real weights
HARNESS(h_weighted_later) { wtd<double, double>(2, VF_T(2, 3), 2); }
// @bound h_weighted_int cache 1..2, 1..2 bins, 0..1 later samples, ints with positive integer weights
HARNESS(h_weighted_int) { wtd<int, int>(2, 2, 1); }
// @bound h_weighted_mixed cache 1..2, 1..2 bins, 0..1 later samples, reals with positive integer weights
HARNESS(h_weighted_mixed) { wtd<double, int>(2, 2, 1); }
// @bound h_weighted_id cache 1..2, 1..2 bins, 0..1 later samples, ints with positive real weights
HARNESS(h_weighted_id) { wtd<int, double>(2, 2, 1); }
// @bound h_weighted_reread cache 2, 2 bins, 2 later reals, read after each
HARNESS(h_weighted_reread)
{
    accumulator_set<double, stats<tag::weighted_density>, double> a(CFG(2, 2));
    double xs[8], ws[8]; hist h;
    for (int i = 0; i < 4; ++i)
    {
        xs[i] = rl(); ws[i] = vf_real(); vf_assume(ws[i] > 0); a(xs[i], weight = ws[i]);
        if (i >= 1) { h.make(xs, ws, 2, i + 1, 2); h.check(density(a)); h.check(weighted_density(a)); }
    }
    vf_cover("end");
}
// as with_weights substitution: stats<tag::density> in a weighted set
// @bound h_subst cache 2, 2 bins, 1 later real, positive weights
HARNESS(h_subst)
{
    accumulator_set<double, stats<tag::density>, double> a(CFG(2, 2));
    double xs[4], ws[4]; hist h;
    for (int i = 0; i < 3; ++i) { xs[i] = rl(); ws[i] = vf_real(); vf_assume(ws[i] > 0); a(xs[i], weight = ws[i]); }
    h.make(xs, ws, 2, 3, 2); h.check(density(a));
    vf_cover("end");
}

// long run
// @bound h_long cache 10, 7 bins, 50 reals, two arbitrary (both after the cache is full)
HARNESS(h_long)
{
    accumulator_set<double, stats<tag::density> > a(CFG(10, 7));
    double xs[50]; hist h;
    for (int i = 0; i < 50; ++i) { xs[i] = i == 20 || i == 49 ? rl() : (double)((i * 17) % 53) - 20; a(xs[i]); }
    h.make(xs, (double *)0, 10, 50, 7); h.check(density(a));
    vf_cover("end");
}

// the cached range itself arbitrary
// @bound h_cached cache 6, 5 bins, 12 reals, two of the cached ones arbitrary
HARNESS(h_cached)
{
    accumulator_set<double, stats<tag::density> > a(CFG(6, 5));
    double xs[12]; hist h;
    for (int i = 0; i < 12; ++i) { xs[i] = i == 1 || i == 4 ? rl() : (double)((i * 17) % 53) - 20; a(xs[i]); }
    h.make(xs, (double *)0, 6, 12, 5); h.check(density(a));
    vf_cover("end");
}
// @bound h_big cache 60, 45 bins, 220 reals, one (thorough two) arbitrary after the cache is full
HARNESS(h_big)
{
    accumulator_set<double, stats<tag::density> > a(CFG(60, 45));
    double xs[220]; hist h;
    for (int i = 0; i < 220; ++i) { xs[i] = i == 100 || (VF_T(0, 1) && i == 219) ? rl() : (double)((i * 17) % 223) - 80; a(xs[i]); }
    h.make(xs, (double *)0, 60, 220, 45); h.check(density(a));
    vf_cover("end");
}
// @bound h_big_cached cache 24, 20 bins, 40 reals, one of the cached ones arbitrary
HARNESS(h_big_cached)
{
    accumulator_set<double, stats<tag::density> > a(CFG(24, 20));
    double xs[60]; hist h;
    for (int i = 0; i < 40; ++i) { xs[i] = i == 20 ? rl() : (double)((i * 17) % 61) - 20; a(xs[i]); }
    h.make(xs, (double *)0, 24, 40, 20); h.check(density(a));
    vf_cover("end");
}
// @bound h_big_weighted cache 30, 20 bins, 120 reals with weights, one arbitrary sample and weight after the cache is full, read twice
HARNESS(h_big_weighted)
{
    accumulator_set<double, stats<tag::weighted_density>, double> a(CFG(30, 20));
    double xs[120], ws[120]; hist h;
    for (int i = 0; i < 120; ++i)
    {
        xs[i] = i == 60 ? rl() : (double)((i * 17) % 127) - 40; ws[i] = i == 60 ? vf_real() : 1 + i % 5; vf_assume(ws[i] > 0); a(xs[i], weight = ws[i]);
        if (i == 50) (void)weighted_density(a).size();
    }
    h.make(xs, ws, 30, 120, 20); h.check(weighted_density(a));
    vf_cover("end");
}

// one more sample after any number of samples in each bin
static double const STEP[9] = { 2, 14, 5, 8, -3, 20, 9, 6, 21 };
NOINLINE int place(hist const &h, double x) { int b = h.B + 1; while (b > 0 && !(x >= h.pos[b])) --b; return b; }
// @bound h_step cache 4, 3 bins, any number of samples in 0..2^40 in each bin, two arbitrary reals in -1e30..1e30
HARNESS(h_step)
{
    accumulator_set<double, stats<tag::density> > a(CFG(4, 3)); hist h;
    for (int i = 0; i < 9; ++i) a(STEP[i]);
    h.make(STEP, (double *)0, 4, 9, 3); h.check(density(a));
    store st; { oarchive o(st); a.serialize(o, 0); } exactly(st, 34);
    int c = seekz(st, 9), b = seek(st, h.h, 5); long n = 4;
    for (int i = 0; i < 5; ++i) { long k = vf_int(i == 1 || i == 4 ? 2 : 0, 1L << 40); n += k; h.h[i] = (double)k; st.d[b + i] = h.h[i]; }
    n -= 4; st.z[c] = n; put(a, st);
    for (int i = 0; i < 2; ++i)
    {
        double x = rl(); a(x); h.h[place(h, x)] += 1; h.total = (double)(n + i + 1); h.check(density(a));
        vf_assert(count(a) == (std::size_t)(n + i + 1), "count");
    }
    vf_cover("end");
}
// @bound h_step_weighted cache 4, 3 bins, any non-negative weight in each bin, one arbitrary real in -1e30..1e30 of any positive weight
HARNESS(h_step_weighted)
{
    accumulator_set<double, stats<tag::weighted_density>, double> a(CFG(4, 3)); hist h; double ws[9], W = 0;
    for (int i = 0; i < 9; ++i) { ws[i] = 1 + i * 0.25; W += ws[i]; a(STEP[i], weight = ws[i]); }
    h.make(STEP, ws, 4, 9, 3); h.check(weighted_density(a));
    store st; { oarchive o(st); a.serialize(o, 0); } exactly(st, 39);
    int c = seekz(st, 9), q = seek(st, &W, 1), b = seek(st, h.h, 5);
    W = 0; for (int i = 0; i < 5; ++i) { double k = vf_real(); vf_assume(k >= 0); h.h[i] = k; st.d[b + i] = k; W += k; }
    vf_assume(W > 0);
    st.z[c] = vf_int(5, 1L << 40); st.d[q] = W; put(a, st);
    double x = rl(), w = vf_real(); vf_assume(w > 0); a(x, weight = w); h.h[place(h, x)] += w; h.total = W + w; h.check(weighted_density(a));
    vf_cover("end");
}
