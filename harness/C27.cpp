#include "common.h"
#include "fresh.h"
#include "store.h"
#include "p2ref.h"
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/median.hpp>
#include <boost/accumulators/statistics/weighted_median.hpp>
#include <boost/accumulators/statistics/density.hpp>
#include <boost/accumulators/statistics/weighted_density.hpp>
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/weighted_p_square_quantile.hpp>
#include <boost/accumulators/statistics/p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators;
#define DCFG(c, b) density_cache_size = (c), density_num_bins = (b)
#define CELLS(b) p_square_cumulative_distribution_num_cells = (b)
static double rl() { return vf_real_in(-1e30, 1e30); }

// the point at which a histogram of (lower end, mass) pairs reaches half of the mass; the last bin has no upper end
template<typename R> NOINLINE double hist_median(R const &h)
{
    double before = 0; int n = (int)h.size();
    for (int i = 0; i < n; ++i)
    {
        double m = h[i].second;
        if (before + m >= 0.5) return i + 1 == n ? h[i].first : h[i].first + (h[i + 1].first - h[i].first) * ((0.5 - before) / m);
        before += m;
    }
    return 0;
}
// the point at which a cumulative distribution of (height, probability) pairs reaches one half
template<typename R> NOINLINE double cdf_median(R const &h)
{
    int i = 0; while (h[i].second < 0.5) ++i;
    if (i == 0) return h[0].first;
    return h[i - 1].first + (h[i].first - h[i - 1].first) * ((0.5 - h[i - 1].second) / (h[i].second - h[i - 1].second));
}

// @bound h_default 5 nondecreasing reals then 2 reals; read after each
HARNESS(h_default)
{
    accumulator_set<double, stats<tag::median> > a; accumulator_set<double, stats<tag::median(with_p_square_quantile)> > b;
    p2ref r; p2_quantile(r, 0.5); double x = vf_real();
    for (int i = 0; i < 7; ++i)
    {
        if (i && i < 5) { double d = vf_real(); vf_assume(d >= 0); x += d; } else x = vf_real();
        a(x); b(x); r.add(x);
        if (i >= 4) { vf_eq(median(a), r.q[2], "median"); vf_eq(median(b), r.q[2], "median2"); }
    }
    vf_cover("end");
}
// @bound h_five the middle one of 5 reals in any order
HARNESS(h_five)
{
    accumulator_set<double, stats<tag::median> > a; double x[5];
    for (int i = 0; i < 5; ++i) { x[i] = vf_real(); a(x[i]); }
    double m = median(a); int below = 0, above = 0; bool one = false;
    for (int i = 0; i < 5; ++i) { if (x[i] < m) ++below; if (x[i] > m) ++above; if (x[i] == m) one = true; }
    vf_assert(one && below <= 2 && above <= 2, "middle");
    vf_cover("end");
}
template<typename T> NOINLINE void dens(int C, int B, int L)
{
    accumulator_set<T, stats<tag::median(with_density)> > a(DCFG(C, B));
    accumulator_set<T, stats<tag::density> > d(DCFG(C, B));
    for (int i = 0; i < C + L; ++i)
    {
        T x = boost::is_same<T, int>::value ? fresh<T>() : (T)rl(); a(x); d(x);
        if (i + 1 >= C) { vf_eq(with_density_median(a), hist_median(density(d)), "median"); vf_eq(median(a), hist_median(density(d)), "again"); }
    }
    vf_cover("end");
}
// @bound h_density cache 1..3, 1..3 bins, 1 later real, read from the filling of the cache on
HARNESS(h_density) { int C = 1 + vf_choice(3); dens<double>(C, 1 + vf_choice(3), 1); }
// @bound h_density_int cache 1..2, 1..3 bins, 1 later int
HARNESS(h_density_int) { int C = 1 + vf_choice(2); dens<int>(C, 1 + vf_choice(3), 1); }
// @bound h_density_later cache 2, 2 bins, 3 later reals, read after each
HARNESS(h_density_later) { dens<double>(2, 2, 3); }
// @bound h_density_long cache 8, 5 bins, 30 reals, one arbitrary late and one arbitrary cached, read at sample 15 and the end
HARNESS(h_density_long)
{
    accumulator_set<double, stats<tag::median(with_density)> > a(DCFG(8, 5));
    accumulator_set<double, stats<tag::density> > d(DCFG(8, 5));
    for (int i = 0; i < 30; ++i)
    {
        double x = i == 3 || i == 11 ? rl() : (double)(i * 37 % 53); a(x); d(x);
        if (i == 14) vf_eq(median(a), hist_median(density(d)), "mid");
    }
    vf_eq(median(a), hist_median(density(d)), "end");
    vf_cover("end");
}
// a set constructed with an initial sample value
// @bound h_density_sample cache 2, 2 bins, 3 reals, constructed with any sample value
HARNESS(h_density_sample)
{
    accumulator_set<double, stats<tag::median(with_density)> > a(sample = rl(), DCFG(2, 2));
    accumulator_set<double, stats<tag::density> > d(DCFG(2, 2));
    for (int i = 0; i < 3; ++i) { double x = rl(); a(x); d(x); }
    vf_eq(median(a), hist_median(density(d)), "median");
    vf_cover("end");
}
template<typename T> NOINLINE void cdist(int b, int N, int H)
{
    accumulator_set<T, stats<tag::median(with_p_square_cumulative_distribution)> > a(CELLS(b));
    accumulator_set<T, stats<tag::p_square_cumulative_distribution> > d(CELLS(b));
    T x = fresh<T>();
    for (int i = 0; i < b + 1 + N + H; ++i)
    {
        if (H && i < b + 1 + H) x = (double)(i * 37 % 53);
        else if (i && i <= b) { T e = fresh<T>(); vf_assume(e >= 0); x += e; }
        else x = fresh<T>();
        a(x); d(x);
        if (i >= b + H) { vf_eq(with_p_square_cumulative_distribution_median(a), cdf_median(p_square_cumulative_distribution(d)), "median"); vf_eq(median(a), cdf_median(p_square_cumulative_distribution(d)), "again"); }
    }
    vf_cover("end");
}
// @bound h_cdist 1..4 cells, cells+1 nondecreasing reals then 2 reals, read from then on
HARNESS(h_cdist) { cdist<double>(1 + vf_choice(4), 2, 0); }
// @bound h_cdist_int 1..3 cells, cells+1 nondecreasing ints then 1 int
HARNESS(h_cdist_int) { cdist<int>(1 + vf_choice(3), 1, 0); }
// @bound h_cdist_history 2..6 cells, 15 more fixed samples then 2 reals
HARNESS(h_cdist_history) { cdist<double>(2 + vf_choice(5), 2, 15); }

// ---- weighted
// @bound h_weighted_default 5 nondecreasing reals then 2 reals; fixed weights
HARNESS(h_weighted_default)
{
    static double const ws[7] = { 2, 1, 1, 3, 1, 4, 2 };
    accumulator_set<double, stats<tag::weighted_median>, double> a; accumulator_set<double, stats<tag::median>, double> b;
    accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> q(quantile_probability = 0.5);
    double x = vf_real();
    for (int i = 0; i < 7; ++i)
    {
        if (i && i < 5) { double d = vf_real(); vf_assume(d >= 0); x += d; } else x = vf_real();
        a(x, weight = ws[i]); b(x, weight = ws[i]); q(x, weight = ws[i]);
        if (i >= 4) { vf_eq(weighted_median(a), weighted_p_square_quantile(q), "median"); vf_eq(median(b), weighted_p_square_quantile(q), "median2"); }
    }
    vf_cover("end");
}
NOINLINE void wdens(int C, int B, int L)
{
    accumulator_set<double, stats<tag::weighted_median(with_density)>, double> a(DCFG(C, B));
    accumulator_set<double, stats<tag::weighted_density>, double> d(DCFG(C, B));
    for (int i = 0; i < C + L; ++i)
    {
        double x = rl(), w = rl(); vf_assume(w > 0); a(x, weight = w); d(x, weight = w);
        if (i + 1 >= C) { vf_eq(median(a), hist_median(weighted_density(d)), "median"); vf_eq(weighted_median(a), hist_median(weighted_density(d)), "again"); }
    }
    vf_cover("end");
}
// @bound h_weighted_density cache 1..2, 1..2 bins, 1 later real, any positive weights, read from the filling of the cache on
HARNESS(h_weighted_density) { int C = 1 + vf_choice(2); wdens(C, 1 + vf_choice(2), 1); }
// @bound h_weighted_density_later cache 1, 2 bins, 2 later reals, any positive weights, read after each
HARNESS(h_weighted_density_later) { wdens(1, 2, 2); }
// @bound h_weighted_cdist 1..3 cells, cells+1 nondecreasing reals then 1 real, fixed weights
HARNESS(h_weighted_cdist)
{
    static double const ws[8] = { 2, 0.5, 1, 3, 1, 4, 0.25, 2 };
    int b = 1 + vf_choice(3);
    accumulator_set<double, stats<tag::weighted_median(with_p_square_cumulative_distribution)>, double> a(CELLS(b));
    accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> d(CELLS(b));
    double x = vf_real();
    for (int i = 0; i < b + 2; ++i)
    {
        if (i && i <= b) { double e = vf_real(); vf_assume(e >= 0); x += e; } else x = vf_real();
        a(x, weight = ws[i]); d(x, weight = ws[i]);
        if (i >= b) { vf_eq(weighted_median(a), cdf_median(weighted_p_square_cumulative_distribution(d)), "median"); vf_eq(median(a), cdf_median(weighted_p_square_cumulative_distribution(d)), "again"); }
    }
    vf_cover("end");
}
// larger histograms and longer streams
// @bound h_density_big cache 30, 24 bins, 90 reals, one arbitrary, read half way and at the end
HARNESS(h_density_big)
{
    accumulator_set<double, stats<tag::median(with_density)> > a(DCFG(30, 24));
    accumulator_set<double, stats<tag::density> > d(DCFG(30, 24));
    for (int i = 0; i < 90; ++i)
    {
        double x = i == 40 ? rl() : (double)(i * 37 % 97); a(x); d(x);
        if (i == 45 || i == 89) vf_eq(median(a), hist_median(density(d)), "median");
    }
    vf_cover("end");
}
// @bound h_weighted_density_big cache 20, 12 bins, 60 weighted reals, one sample and its weight arbitrary, read half way and at the end
HARNESS(h_weighted_density_big)
{
    accumulator_set<double, stats<tag::weighted_median(with_density)>, double> a(DCFG(20, 12));
    accumulator_set<double, stats<tag::weighted_density>, double> d(DCFG(20, 12));
    for (int i = 0; i < 60; ++i)
    {
        double x = i == 30 ? rl() : (double)(i * 37 % 97), w = i == 30 ? rl() : 1 + i % 4; vf_assume(w > 0); a(x, weight = w); d(x, weight = w);
        if (i == 35 || i == 59) vf_eq(median(a), hist_median(weighted_density(d)), "median");
    }
    vf_cover("end");
}
// @bound h_cdist_big 16 cells, 60 fixed samples then 1 real
HARNESS(h_cdist_big) { cdist<double>(16, 1, 60); }
// @bound h_weighted_history 20 fixed weighted samples then 1 real of any positive weight: median from P-square and from the distribution with 2..4 cells
HARNESS(h_weighted_history)
{
    static double const ws[8] = { 2, 0.5, 1, 3, 1, 4, 0.25, 2 };
    int b = 2 + vf_choice(3);
    accumulator_set<double, stats<tag::weighted_median(with_p_square_cumulative_distribution)>, double> a(CELLS(b));
    accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> d(CELLS(b));
    accumulator_set<double, stats<tag::weighted_median>, double> m;
    accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> q(quantile_probability = 0.5);
    for (int i = 0; i < 21; ++i)
    {
        double x = i == 20 ? vf_real() : (double)(i * 37 % 101), w = i == 20 ? vf_real() : ws[i % 8]; vf_assume(w > 0);
        a(x, weight = w); d(x, weight = w); m(x, weight = w); q(x, weight = w);
        if (i >= 19) { vf_eq(weighted_median(a), cdf_median(weighted_p_square_cumulative_distribution(d)), "median"); vf_eq(weighted_median(m), weighted_p_square_quantile(q), "default"); }
    }
    vf_cover("end");
}

// any number of samples (any weight) in each bin
static double const STEP[9] = { 2, 14, 5, 8, -3, 20, 9, 6, 21 };
// @bound h_density_any cache 4, 3 bins, any number of samples in 0..2^40 in each bin, then 1 arbitrary real in -1e30..1e30
HARNESS(h_density_any)
{
    accumulator_set<double, stats<tag::median(with_density), tag::density> > a(DCFG(4, 3));
    for (int i = 0; i < 9; ++i) a(STEP[i]);
    double h[5] = { 1, 2, 3, 0, 3 };
    store st; { oarchive o(st); a.serialize(o, 0); } exactly(st, 37);
    int c = seekz(st, 9), b = seek(st, h, 5); long n = 0;
    for (int i = 0; i < 5; ++i) { long k = vf_int(i == 1 || i == 4 ? 2 : 0, 1L << 40); n += k; st.d[b + i] = (double)k; }
    st.z[c] = n; put(a, st);
    a(rl());
    vf_eq(median(a), hist_median(density(a)), "median");
    vf_cover("end");
}
// @bound h_weighted_density_any cache 4, 3 bins, any non-negative weight in each bin, then 1 arbitrary real in -1e30..1e30 of weight 1
HARNESS(h_weighted_density_any)
{
    accumulator_set<double, stats<tag::weighted_median(with_density), tag::weighted_density>, double> a(DCFG(4, 3));
    double h[5] = { 2, 2.5, 7, 0, 6.5 }, W = 0;
    for (int i = 0; i < 9; ++i) { W += 1 + i * 0.25; a(STEP[i], weight = 1 + i * 0.25); }
    store st; { oarchive o(st); a.serialize(o, 0); } exactly(st, 42);
    int c = seekz(st, 9), q = seek(st, &W, 1), b = seek(st, h, 5); W = 0;
    for (int i = 0; i < 5; ++i) { double k = vf_real(); vf_assume(k >= 0); W += k; st.d[b + i] = k; }
    vf_assume(W > 0); st.z[c] = vf_int(5, 1L << 40); st.d[q] = W; put(a, st);
    a(rl(), weight = 1.);
    vf_eq(weighted_median(a), hist_median(weighted_density(a)), "median");
    vf_cover("end");
}

// samples and weights of different types
template<typename T, typename W> NOINLINE void mixed()
{
    static int const wi[7] = { 2, 1, 1, 3, 1, 4, 2 };
    accumulator_set<T, stats<tag::weighted_median>, W> a; accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> q(quantile_probability = 0.5);
    accumulator_set<T, stats<tag::weighted_median(with_density)>, W> b(DCFG(2, 2)); accumulator_set<double, stats<tag::weighted_density>, double> d(DCFG(2, 2));
    accumulator_set<T, stats<tag::weighted_median(with_p_square_cumulative_distribution)>, W> c(CELLS(3)); accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> e(CELLS(3));
    T last = T(); int which = vf_choice(3), n = which == 0 ? 6 : which == 1 ? 4 : 5;
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); if (i && i < n - 1) vf_assume(x >= last); last = x;
        double y = (double)x; W w = (W)wi[i]; double v = wi[i];
        if (which == 0) { a(x, weight = w); q(y, weight = v); }
        else if (which == 1) { b(x, weight = w); d(y, weight = v); }
        else { c(x, weight = w); e(y, weight = v); }
    }
    if (which == 0) vf_eq(weighted_median(a), weighted_p_square_quantile(q), "p_square");
    else if (which == 1) vf_eq(weighted_median(b), hist_median(weighted_density(d)), "density");
    else vf_eq(weighted_median(c), cdf_median(weighted_p_square_cumulative_distribution(e)), "cdist");
    vf_cover("end");
}
// @bound h_mixed_types 3..5 nondecreasing samples then 1, fixed weights: int samples with real weights, real samples with int weights, both int
HARNESS(h_mixed_types) { switch (vf_choice(3)) { case 0: mixed<int, double>(); break; case 1: mixed<double, int>(); break; default: mixed<int, int>(); } }

// a probability given for a quantile in the same set does not move the median
// @bound h_with_quantile probability 0.2 or 0.875 given, 5 nondecreasing reals then 1 real, unweighted and with fixed weights, beside the quantile and alone
HARNESS(h_with_quantile)
{
    static double const w[7] = { 2, 1, 3, 1, 4, 2, 1 };
    double const p = vf_choice(2) ? 0.2 : 0.875;
    accumulator_set<double, stats<tag::median> > m(quantile_probability = p), m0;
    accumulator_set<double, stats<tag::p_square_quantile> > q(quantile_probability = p);
    accumulator_set<double, stats<tag::p_square_quantile, tag::median> > a(quantile_probability = p);
    accumulator_set<double, stats<tag::weighted_median>, double> n(quantile_probability = p), n0;
    accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> u(quantile_probability = p);
    accumulator_set<double, stats<tag::weighted_p_square_quantile, tag::weighted_median>, double> b(quantile_probability = p);
    bool weighted = vf_choice(2); double x = vf_real();
    for (int i = 0; i < 6; ++i)
    {
        if (i && i < 5) { double d = vf_real(); vf_assume(d >= 0); x += d; } else x = vf_real();
        if (weighted) { n(x, weight = w[i]); n0(x, weight = w[i]); u(x, weight = w[i]); b(x, weight = w[i]); }
        else { m(x); m0(x); q(x); a(x); }
    }
    if (weighted)
    {
        vf_eq(weighted_median(n), weighted_median(n0), "weighted_alone"); vf_eq(weighted_median(b), weighted_median(n0), "weighted_beside");
        vf_eq(weighted_p_square_quantile(b), weighted_p_square_quantile(u), "weighted_quantile");
    }
    else
    {
        vf_eq(median(m), median(m0), "alone"); vf_eq(median(a), median(m0), "beside"); vf_eq(p_square_quantile(a), p_square_quantile(q), "quantile");
    }
    vf_cover("end");
}
