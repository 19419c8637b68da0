#include "common.h"
#include "fresh.h"
#include "p2step.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/weighted_p_square_quantile.hpp>
#include <boost/accumulators/statistics/p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/extended_p_square.hpp>
#include <boost/accumulators/statistics/weighted_extended_p_square.hpp>
#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators;
typedef accumulator_set<double, stats<tag::p_square_quantile> > PQ;
typedef accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> WQ;
typedef accumulator_set<double, stats<tag::p_square_cumulative_distribution> > PD;
typedef accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> WD;
typedef accumulator_set<double, stats<tag::extended_p_square> > PE;
typedef accumulator_set<double, stats<tag::weighted_extended_p_square>, double> WE;
#define CELLS(b) p_square_cumulative_distribution_num_cells = (b)

// a stream: the first k samples nondecreasing (or in any order), the rest arbitrary
struct src
{
    int k, i; bool strict; double x;
    src(int k_, bool s) : k(k_), i(0), strict(s), x(0) {}
    NOINLINE double next()
    {
        if (i == 0 || i >= k) { ++i; return x = vf_real(); }
        ++i; double d = vf_real(); vf_assume(strict ? d > 0 : d >= 0); return x += d;
    }
};

// ---- unit weights
// @bound h_unit_quantile any probability in (0,1), 5 nondecreasing reals then 2 reals, weights 1
HARNESS(h_unit_quantile)
{
    double p = vf_real(); vf_assume(p > 0 && p < 1);
    PQ a(quantile_probability = p); WQ b(quantile_probability = p); src s(5, false);
    for (int i = 0; i < 7; ++i) { double x = s.next(); a(x); b(x, weight = 1.); if (i >= 4) vf_eq(weighted_p_square_quantile(b), p_square_quantile(a), "quantile"); }
    vf_cover("end");
}
// @bound h_unit_order 5 reals in any order then 1 real, weights 1, probability 1/4
HARNESS(h_unit_order)
{
    PQ a(quantile_probability = 0.25); WQ b(quantile_probability = 0.25);
    for (int i = 0; i < 6; ++i) { double x = vf_real(); a(x); b(x, weight = 1.); if (i >= 4) vf_eq(weighted_p_square_quantile(b), p_square_quantile(a), "quantile"); }
    vf_cover("end");
}
NOINLINE void same_dist(PD const &a, WD const &b)
{
    auto g = p_square_cumulative_distribution(a); auto h = weighted_p_square_cumulative_distribution(b);
    vf_assert(g.size() == h.size(), "size");
    for (std::size_t i = 0; i < g.size(); ++i) { vf_eq(h[i].first, g[i].first, "height"); vf_eq(h[i].second, g[i].second, "probability"); }
}
// @bound h_unit_dist 1..4 cells, cells+1 increasing reals then 2 reals, weights 1
HARNESS(h_unit_dist)
{
    int c = 1 + vf_choice(4); PD a(CELLS(c)); WD b(CELLS(c)); src s(c + 1, true);
    for (int i = 0; i < c + 3; ++i) { double x = s.next(); a(x); b(x, weight = 1.); if (i >= c) same_dist(a, b); }
    vf_cover("end");
}
// @bound h_unit_dist_history 2..6 cells, 20 fixed samples then 2 reals, weights 1
HARNESS(h_unit_dist_history)
{
    int c = 2 + vf_choice(5); PD a(CELLS(c)); WD b(CELLS(c));
    for (int i = 0; i < 22; ++i) { double x = i < 20 ? (double)(i * 37 % 101) : vf_real(); a(x); b(x, weight = 1.); if (i >= 19) same_dist(a, b); }
    vf_cover("end");
}
NOINLINE void same_ext(PE const &a, WE const &b)
{
    auto g = extended_p_square(a); auto h = weighted_extended_p_square(b);
    vf_assert(g.size() == h.size(), "size");
    for (int i = 0; i < (int)g.size(); ++i) vf_eq(h[i], g[i], "estimate");
}
static double const P4[4] = { 0.01, 0.25, 0.7, 0.99 };
// @bound h_unit_ext 1..2 (thorough 1..3) probabilities, start-up samples increasing then 2 reals (quick: 1 for 2 probabilities), weights 1
HARNESS(h_unit_ext)
{
    int m = 1 + vf_choice(VF_T(2, 3)); std::vector<double> p(P4, P4 + m);
    PE a(extended_p_square_probabilities = p); WE b(extended_p_square_probabilities = p); src s(2 * m + 3, true);
    for (int i = 0; i < 2 * m + VF_T(6 - m, 5); ++i) { double x = s.next(); a(x); b(x, weight = 1.); if (i >= 2 * m + 2) same_ext(a, b); }
    vf_cover("end");
}
// @bound h_unit_ext_history 1..4 probabilities, 20 fixed samples then 2 reals, weights 1
HARNESS(h_unit_ext_history)
{
    int m = 1 + vf_choice(4); std::vector<double> p(P4, P4 + m);
    PE a(extended_p_square_probabilities = p); WE b(extended_p_square_probabilities = p);
    for (int i = 0; i < 22; ++i) { double x = i < 20 ? (double)(i * 37 % 101) : vf_real(); a(x); b(x, weight = 1.); if (i >= 19) same_ext(a, b); }
    vf_cover("end");
}
template<typename T1, typename T2> NOINLINE void unit_interp(int m)
{
    std::vector<double> p(P4, P4 + m);
    accumulator_set<double, stats<T1> > a(extended_p_square_probabilities = p); accumulator_set<double, stats<T2>, double> b(extended_p_square_probabilities = p);
    src s(2 * m + 3, true);
    for (int i = 0; i < 2 * m + 3; ++i) { double x = s.next(); a(x); b(x, weight = 1.); }
    double q = vf_real();
    vf_eq(quantile(b, quantile_probability = q), quantile(a, quantile_probability = q), "quantile");
    vf_cover("end");
}
// @bound h_unit_linear 1..3 probabilities, start-up samples increasing, weights 1, any query probability
HARNESS(h_unit_linear) { unit_interp<tag::extended_p_square_quantile, tag::weighted_extended_p_square_quantile>(1 + vf_choice(3)); }
// @bound h_unit_quadratic 1..4 probabilities, start-up samples increasing, weights 1, any query probability
HARNESS(h_unit_quadratic) { unit_interp<tag::extended_p_square_quantile_quadratic, tag::weighted_extended_p_square_quantile_quadratic>(1 + vf_choice(4)); }

// ---- other weights: markers at accumulated weight, the first at the weight of the minimum, the last at the total;
// desired positions f[i] of the way from the first to the last
struct wref
{
    p2ref r; double f[64], w[64], W; int seen;
    NOINLINE void start(int m, double const *f_) { r.start(m); W = 0; seen = 0; for (int i = 0; i < m; ++i) f[i] = f_[i]; }
    NOINLINE void add(double x, double wt)
    {
        int m = r.m; W += wt;
        if (seen < m)
        {
            int j = seen++;
            while (j > 0 && x < r.q[j - 1]) { r.q[j] = r.q[j - 1]; w[j] = w[j - 1]; --j; }
            r.q[j] = x; w[j] = wt;
            if (seen == m) { double t = 0; for (int i = 0; i < m; ++i) { t += w[i]; r.n[i] = t; } }
            return;
        }
        int k;
        if (x < r.q[0]) { r.q[0] = x; r.n[0] = wt; k = 0; }
        else if (x >= r.q[m - 1]) { r.q[m - 1] = x; k = m - 2; }
        else { k = m - 2; while (x < r.q[k]) --k; }
        for (int i = k + 1; i < m; ++i) r.n[i] += wt;
        for (int i = 0; i < m; ++i) r.t[i] = r.n[0] + f[i] * (W - r.n[0]);
        for (int i = 1; i < m - 1; ++i) r.adjust(i);
    }
    NOINLINE void check()
    {
        for (int i = 1; i < r.m; ++i) { vf_assert(r.q[i - 1] <= r.q[i], "sorted"); vf_assert(r.n[i - 1] < r.n[i], "positions"); }
        vf_eq(r.n[r.m - 1], W, "total");
    }
};
static double const WS[3][8] = { { 2, 0.5, 1, 3, 1, 4, 0.25, 2 }, { 10, 1, 1, 1, 20, 1, 5, 3 }, { 0.125, 0.25, 0.5, 1, 2, 4, 8, 16 } };
// @bound h_weighted_quantile probabilities 0.1, 0.5, 0.9; 5 increasing reals then 2 reals; three weight sequences
HARNESS(h_weighted_quantile)
{
    double const *ws = WS[vf_choice(3)], ps[3] = { 0.1, 0.5, 0.9 }, p = ps[vf_choice(3)];
    double f[5] = { 0, p / 2, p, (1 + p) / 2, 1 };
    WQ a(quantile_probability = p); wref r; r.start(5, f); src s(5, true);
    for (int i = 0; i < 7; ++i)
    {
        double x = s.next(), w = ws[i % 8]; a(x, weight = w); r.add(x, w);
        if (i >= 4) { vf_eq(weighted_p_square_quantile(a), r.r.q[2], "quantile"); r.check(); }
    }
    vf_cover("end");
}
// @bound h_weighted_order 5 reals in any order, weights 2,1/2,1,3,1, then one more of weight 4
HARNESS(h_weighted_order)
{
    double f[5] = { 0, 0.125, 0.25, 0.625, 1 };
    WQ a(quantile_probability = 0.25); wref r; r.start(5, f); double xs[5];
    for (int i = 0; i < 6; ++i)
    {
        double x = vf_real(), w = WS[0][i]; a(x, weight = w); r.add(x, w);
        if (i < 5) { xs[i] = x; for (int j = 0; j < i; ++j) vf_assume(x != xs[j]); }
        if (i >= 4) vf_eq(weighted_p_square_quantile(a), r.r.q[2], "quantile");
    }
    vf_cover("end");
}
// @bound h_weighted_history 20 fixed samples with varying weights then 2 reals, probabilities 0.1, 0.5, 0.9
HARNESS(h_weighted_history)
{
    double const ps[3] = { 0.1, 0.5, 0.9 }, p = ps[vf_choice(3)];
    double f[5] = { 0, p / 2, p, (1 + p) / 2, 1 };
    WQ a(quantile_probability = p); wref r; r.start(5, f);
    for (int i = 0; i < 22; ++i)
    {
        double x = i < 20 ? (double)(i * 37 % 101) : vf_real(), w = WS[i % 3][i % 8]; a(x, weight = w); r.add(x, w);
        if (i >= 19) { vf_eq(weighted_p_square_quantile(a), r.r.q[2], "quantile"); r.check(); }
    }
    vf_cover("end");
}
NOINLINE void dist_cmp(WD const &a, wref &r)
{
    auto h = weighted_p_square_cumulative_distribution(a);
    vf_assert((int)h.size() == r.r.m, "size");
    for (int i = 0; i < r.r.m; ++i) { vf_eq(h[i].first, r.r.q[i], "height"); vf_eq(h[i].second, r.r.n[i] / r.W, "probability"); }
    r.check();
}
// @bound h_weighted_dist 1..3 cells, cells+1 increasing reals then 2 reals, three weight sequences
HARNESS(h_weighted_dist)
{
    int c = 1 + vf_choice(3); double const *ws = WS[vf_choice(3)]; double f[5]; for (int i = 0; i <= c; ++i) f[i] = (double)i / c;
    WD a(CELLS(c)); wref r; r.start(c + 1, f); src s(c + 1, true);
    for (int i = 0; i < c + 3; ++i) { double x = s.next(), w = ws[i]; a(x, weight = w); r.add(x, w); if (i >= c) dist_cmp(a, r); }
    vf_cover("end");
}
// @bound h_weighted_dist_history 2..6 cells, 20 fixed samples with varying weights then 2 reals
HARNESS(h_weighted_dist_history)
{
    int c = 2 + vf_choice(5); double f[8]; for (int i = 0; i <= c; ++i) f[i] = (double)i / c;
    WD a(CELLS(c)); wref r; r.start(c + 1, f);
    for (int i = 0; i < 22; ++i) { double x = i < 20 ? (double)(i * 37 % 101) : vf_real(), w = WS[i % 3][i % 8]; a(x, weight = w); r.add(x, w); if (i >= 19) dist_cmp(a, r); }
    vf_cover("end");
}
NOINLINE void ext_f(double *f, int m)
{
    f[0] = 0; f[2 * m + 2] = 1;
    for (int i = 0; i < m; ++i) f[2 * i + 2] = P4[i];
    for (int i = 1; i < 2 * m + 2; i += 2) f[i] = (f[i - 1] + f[i + 1]) / 2;
}
NOINLINE void ext_cmp(WE const &a, wref &r, int m)
{
    auto e = weighted_extended_p_square(a);
    vf_assert((int)e.size() == m, "size");
    for (int i = 0; i < m; ++i) vf_eq(e[i], r.r.q[2 * i + 2], "estimate");
    r.check();
}
// @bound h_weighted_ext 1..2 probabilities, start-up samples increasing then 1 (thorough 2) real, three weight sequences
HARNESS(h_weighted_ext)
{
    int m = 1 + vf_choice(2); double const *ws = WS[vf_choice(3)]; double f[12]; ext_f(f, m); std::vector<double> p(P4, P4 + m);
    WE a(extended_p_square_probabilities = p); wref r; r.start(2 * m + 3, f); src s(2 * m + 3, true);
    for (int i = 0; i < 2 * m + 3 + VF_T(1, 2); ++i) { double x = s.next(), w = ws[i % 8]; a(x, weight = w); r.add(x, w); if (i >= 2 * m + 2) ext_cmp(a, r, m); }
    vf_cover("end");
}
// @bound h_weighted_ext_history 1..4 probabilities, 20 fixed samples with varying weights then 2 reals
HARNESS(h_weighted_ext_history)
{
    int m = 1 + vf_choice(4); double f[12]; ext_f(f, m); std::vector<double> p(P4, P4 + m);
    WE a(extended_p_square_probabilities = p); wref r; r.start(2 * m + 3, f);
    for (int i = 0; i < 22; ++i) { double x = i < 20 ? (double)(i * 37 % 101) : vf_real(), w = WS[i % 3][i % 8]; a(x, weight = w); r.add(x, w); if (i >= 19) ext_cmp(a, r, m); }
    vf_cover("end");
}
// ---- int samples and int weights: what the same numbers as doubles give
// @bound h_int_quantile 5 increasing ints then 1 int, int weights {2,1,3,1,4,2}; and one of the two real
HARNESS(h_int_quantile)
{
    static int const wi[6] = { 2, 1, 3, 1, 4, 2 };
    accumulator_set<int, stats<tag::weighted_p_square_quantile>, int> a(quantile_probability = 0.3);
    accumulator_set<int, stats<tag::weighted_p_square_quantile>, double> c(quantile_probability = 0.3);
    accumulator_set<double, stats<tag::weighted_p_square_quantile>, int> d(quantile_probability = 0.3);
    double f[5] = { 0, 0.15, 0.3, 0.65, 1 }; wref r; r.start(5, f); int last = 0;
    for (int i = 0; i < 6; ++i)
    {
        int x = (int)vf_int(-1000, 1000); if (i && i < 5) vf_assume(x > last); last = x;
        a(x, weight = wi[i]); c(x, weight = (double)wi[i]); d((double)x, weight = wi[i]); r.add(x, wi[i]);
        if (i >= 4) { vf_eq(weighted_p_square_quantile(a), r.r.q[2], "int_weights"); vf_eq(weighted_p_square_quantile(c), r.r.q[2], "real_weights"); vf_eq(weighted_p_square_quantile(d), r.r.q[2], "real_samples"); }
    }
    vf_cover("end");
}
// @bound h_int_dist 1..3 cells, cells+1 increasing ints then 1 int, int weights; and one of the two real
HARNESS(h_int_dist)
{
    static int const wi[6] = { 2, 1, 3, 1, 4, 2 };
    int c = 1 + vf_choice(3), last = 0; double f[5]; for (int i = 0; i <= c; ++i) f[i] = (double)i / c;
    accumulator_set<int, stats<tag::weighted_p_square_cumulative_distribution>, int> a(CELLS(c)); wref r; r.start(c + 1, f);
    accumulator_set<int, stats<tag::weighted_p_square_cumulative_distribution>, double> u(CELLS(c));
    accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, int> v(CELLS(c));
    for (int i = 0; i < c + 2; ++i)
    {
        int x = (int)vf_int(-1000, 1000); if (i && i <= c) vf_assume(x > last); last = x;
        a(x, weight = wi[i]); r.add(x, wi[i]); u(x, weight = (double)wi[i]); v((double)x, weight = wi[i]);
        if (i < c) continue;
        auto h = weighted_p_square_cumulative_distribution(a); auto hu = weighted_p_square_cumulative_distribution(u); auto hv = weighted_p_square_cumulative_distribution(v);
        for (int k = 0; k <= c; ++k)
        {
            vf_eq(h[k].first, r.r.q[k], "height"); vf_eq(h[k].second, r.r.n[k] / r.W, "probability");
            vf_eq(hu[k].first, r.r.q[k], "height_real_weights"); vf_eq(hu[k].second, r.r.n[k] / r.W, "probability_real_weights");
            vf_eq(hv[k].first, r.r.q[k], "height_real_samples"); vf_eq(hv[k].second, r.r.n[k] / r.W, "probability_real_samples");
        }
    }
    vf_cover("end");
}
// @bound h_int_ext one probability, 5 increasing ints then 1 int, int weights; and one of the two real
HARNESS(h_int_ext)
{
    static int const wi[6] = { 2, 1, 3, 1, 4, 2 };
    double f[12]; ext_f(f, 1); std::vector<double> p(P4, P4 + 1); int last = 0;
    accumulator_set<int, stats<tag::weighted_extended_p_square>, int> a(extended_p_square_probabilities = p); wref r; r.start(5, f);
    accumulator_set<int, stats<tag::weighted_extended_p_square>, double> u(extended_p_square_probabilities = p);
    accumulator_set<double, stats<tag::weighted_extended_p_square>, int> v(extended_p_square_probabilities = p);
    for (int i = 0; i < 6; ++i)
    {
        int x = (int)vf_int(-1000, 1000); if (i && i < 5) vf_assume(x > last); last = x;
        a(x, weight = wi[i]); r.add(x, wi[i]); u(x, weight = (double)wi[i]); v((double)x, weight = wi[i]);
        if (i >= 4) { vf_eq(weighted_extended_p_square(a)[0], r.r.q[2], "estimate"); vf_eq(weighted_extended_p_square(u)[0], r.r.q[2], "real_weights"); vf_eq(weighted_extended_p_square(v)[0], r.r.q[2], "real_samples"); }
    }
    vf_cover("end");
}
// larger estimators and longer histories
// @bound h_big_quantile 120 fixed samples with varying weights then 1 real, probabilities 0.1, 0.5, 0.9
HARNESS(h_big_quantile)
{
    double const ps[3] = { 0.1, 0.5, 0.9 }, p = ps[vf_choice(3)];
    double f[5] = { 0, p / 2, p, (1 + p) / 2, 1 };
    WQ a(quantile_probability = p); wref r; r.start(5, f);
    for (int i = 0; i < 121; ++i)
    {
        double x = i < 120 ? (double)(i * 37 % 131) : vf_real(), w = WS[i % 3][i % 8]; a(x, weight = w); r.add(x, w);
        if (i >= 119) { vf_eq(weighted_p_square_quantile(a), r.r.q[2], "quantile"); r.check(); }
    }
    vf_cover("end");
}
// @bound h_big_dist 20 cells, 90 fixed samples with varying weights then 1 real
HARNESS(h_big_dist)
{
    int const c = 20; double f[c + 1]; for (int i = 0; i <= c; ++i) f[i] = (double)i / c;
    WD a(CELLS(c)); wref r; r.start(c + 1, f);
    for (int i = 0; i < 91; ++i) { double x = i < 90 ? (double)(i * 37 % 101) : vf_real(), w = WS[i % 3][i % 8]; a(x, weight = w); r.add(x, w); if (i >= 89) dist_cmp(a, r); }
    vf_cover("end");
}
// @bound h_big_ext 9 probabilities, 80 fixed samples with varying weights then 1 real
HARNESS(h_big_ext)
{
    int const m = 9; double const q[m] = { 0.01, 0.05, 0.1, 0.25, 0.5, 0.6, 0.75, 0.9, 0.99 };
    double f[2 * m + 3]; f[0] = 0; f[2 * m + 2] = 1;
    for (int i = 0; i < m; ++i) f[2 * i + 2] = q[i];
    for (int i = 1; i < 2 * m + 2; i += 2) f[i] = (f[i - 1] + f[i + 1]) / 2;
    std::vector<double> p(q, q + m);
    WE a(extended_p_square_probabilities = p); wref r; r.start(2 * m + 3, f);
    for (int i = 0; i < 81; ++i) { double x = i < 80 ? (double)(i * 37 % 101) : vf_real(), w = WS[i % 3][i % 8]; a(x, weight = w); r.add(x, w); if (i >= 79) ext_cmp(a, r, m); }
    vf_cover("end");
}
// arbitrary weights
// @bound h_any_weight_quantile 20 fixed samples with varying weights then 1 real of any positive weight, probabilities 0.1, 0.5, 0.9
HARNESS(h_any_weight_quantile)
{
    double const ps[3] = { 0.1, 0.5, 0.9 }, p = ps[vf_choice(3)];
    double f[5] = { 0, p / 2, p, (1 + p) / 2, 1 };
    WQ a(quantile_probability = p); wref r; r.start(5, f);
    for (int i = 0; i < 21; ++i)
    {
        double x = i < 20 ? (double)(i * 37 % 101) : vf_real(), w = i < 20 ? WS[i % 3][i % 8] : vf_real(); vf_assume(w > 0); a(x, weight = w); r.add(x, w);
        if (i >= 19) { vf_eq(weighted_p_square_quantile(a), r.r.q[2], "quantile"); r.check(); }
    }
    vf_cover("end");
}
// @bound h_any_weights_five 5 increasing reals with any positive weights, then 1 real of any positive weight, probability 1/4
// @thorough h_any_weights_five
HARNESS(h_any_weights_five)
{
    double f[5] = { 0, 0.125, 0.25, 0.625, 1 };
    WQ a(quantile_probability = 0.25); wref r; r.start(5, f); src s(5, true);
    for (int i = 0; i < 6; ++i)
    {
        double x = s.next(), w = vf_real(); vf_assume(w > 0); a(x, weight = w); r.add(x, w);
        if (i >= 4) vf_eq(weighted_p_square_quantile(a), r.r.q[2], "quantile");
    }
    vf_cover("end");
}
// @bound h_any_weight_dist 2..4 cells, 15 fixed samples with varying weights then 1 real of any positive weight
HARNESS(h_any_weight_dist)
{
    int c = 2 + vf_choice(3); double f[8]; for (int i = 0; i <= c; ++i) f[i] = (double)i / c;
    WD a(CELLS(c)); wref r; r.start(c + 1, f);
    for (int i = 0; i < 16; ++i) { double x = i < 15 ? (double)(i * 37 % 101) : vf_real(), w = i < 15 ? WS[i % 3][i % 8] : vf_real(); vf_assume(w > 0); a(x, weight = w); r.add(x, w); if (i >= 14) dist_cmp(a, r); }
    vf_cover("end");
}
// @bound h_any_weight_ext 1..2 probabilities, 15 fixed samples with varying weights then 1 real of any positive weight
HARNESS(h_any_weight_ext)
{
    int m = 1 + vf_choice(2); double f[12]; ext_f(f, m); std::vector<double> p(P4, P4 + m);
    WE a(extended_p_square_probabilities = p); wref r; r.start(2 * m + 3, f);
    for (int i = 0; i < 16; ++i) { double x = i < 15 ? (double)(i * 37 % 101) : vf_real(), w = i < 15 ? WS[i % 3][i % 8] : vf_real(); vf_assume(w > 0); a(x, weight = w); r.add(x, w); if (i >= 14) ext_cmp(a, r, m); }
    vf_cover("end");
}

// ---- one step from an arbitrary state: any heights, the positions and the total weight of a history of twenty scaled up
NOINLINE double scaled(int k) { static double const s[4] = { 1, 64, 1048576, 8589934592.0 }; return s[k]; }
template<typename A> NOINLINE double w_inject(A &a, wref &r, long fed, int items)
{
    store st; { oarchive o(st); a.serialize(o, 0); }
    exactly(st, items);
    int m = r.r.m, c = seekz(st, fed), q = seek(st, r.r.q, m), p = seek(st, r.r.n, m), found = 0;
    double s = scaled(vf_choice(4)), h = vf_real();
    for (int i = 0; i < m; ++i)
    {
        if (i) { double d = vf_real(); vf_assume(d >= 0); h += d; }
        r.r.q[i] = h; r.r.n[i] *= s; st.d[q + i] = h; st.d[p + i] = r.r.n[i];
    }
    // the total weight, and the desired position of the last marker if that is stored
    for (int i = 0; i < st.n; ++i) if ((i < p || i >= p + m) && (i < q || i >= q + m) && st.kind[i] == 'd' && !off(st.d[i], r.W)) { st.d[i] = r.W * s; ++found; }
    if (!found) vf_skip("unexpected state layout");
    r.W *= s; st.z[c] = (long)(fed * s); put(a, st);
    return s;
}
NOINLINE double w_next(double s) { static double const w[4] = { 1, 0.125, 3, 5.5 }; int k = vf_choice(4); return k == 3 ? s * w[k] : w[k]; }
// @bound h_step_quantile any nondecreasing heights, positions and total weight of 20 samples scaled by 1, 2^6, 2^20 or 2^33, one arbitrary real with weight 1, 1/8, 3 or 5.5 times the scale; probabilities 0.1, 0.5, 0.9
HARNESS(h_step_quantile)
{
    double const ps[3] = { 0.1, 0.5, 0.9 }, p = ps[vf_choice(3)];
    double f[5] = { 0, p / 2, p, (1 + p) / 2, 1 };
    WQ a(quantile_probability = p); wref r; r.start(5, f);
    for (int i = 0; i < 20; ++i) { double x = 200 + (double)(i * 37 % 101), w = WS[i % 3][i % 8]; a(x, weight = w); r.add(x, w); }
    double s = w_inject(a, r, 20, 18);
    vf_eq(weighted_p_square_quantile(a), r.r.q[2], "restored");
    double x = vf_real(), w = w_next(s); a(x, weight = w); r.add(x, w);
    vf_eq(weighted_p_square_quantile(a), r.r.q[2], "quantile");
    vf_cover("end");
}
// @bound h_step_dist 2..4 cells, any nondecreasing heights, positions and total weight of 20 samples scaled by 1, 2^6, 2^20 or 2^33, one arbitrary real with weight 1, 1/8, 3 or 5.5 times the scale
HARNESS(h_step_dist)
{
    int c = 2 + vf_choice(3); double f[8]; for (int i = 0; i <= c; ++i) f[i] = (double)i / c;
    WD a(CELLS(c)); wref r; r.start(c + 1, f);
    for (int i = 0; i < 20; ++i) { double x = 200 + (double)(i * 37 % 101), w = WS[i % 3][i % 8]; a(x, weight = w); r.add(x, w); }
    double s = w_inject(a, r, 20, 8 + 5 * (c + 1));
    double x = vf_real(), w = w_next(s); a(x, weight = w); r.add(x, w);
    dist_cmp(a, r);
    vf_cover("end");
}
// @bound h_step_ext 1..2 probabilities, any nondecreasing heights, positions and total weight of 20 samples scaled by 1, 2^6, 2^20 or 2^33, one arbitrary real with weight 1, 1/8, 3 or 5.5 times the scale
HARNESS(h_step_ext)
{
    int m = 1 + vf_choice(2); double f[12]; ext_f(f, m); std::vector<double> p(P4, P4 + m);
    WE a(extended_p_square_probabilities = p); wref r; r.start(2 * m + 3, f);
    for (int i = 0; i < 20; ++i) { double x = 200 + (double)(i * 37 % 101), w = WS[i % 3][i % 8]; a(x, weight = w); r.add(x, w); }
    double s = w_inject(a, r, 20, 3 + m + 3 * (2 * m + 4));
    double x = vf_real(), w = w_next(s); a(x, weight = w); r.add(x, w);
    ext_cmp(a, r, m);
    vf_cover("end");
}

// the probability is one half when none is given
// @bound h_default_probability 5 nondecreasing reals then 2 reals, weights 1; weights {2,1,3,1,4,2,1} against probability one half given
HARNESS(h_default_probability)
{
    static double const w[7] = { 2, 1, 3, 1, 4, 2, 1 };
    PQ a; WQ b, c, d(quantile_probability = 0.5); src s(5, false);
    for (int i = 0; i < 7; ++i)
    {
        double x = s.next(); a(x); b(x, weight = 1.); c(x, weight = w[i]); d(x, weight = w[i]);
        if (i >= 4) { vf_eq(weighted_p_square_quantile(b), p_square_quantile(a), "unit"); vf_eq(weighted_p_square_quantile(c), weighted_p_square_quantile(d), "weighted"); }
    }
    vf_cover("end");
}
