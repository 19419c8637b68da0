#include "common.h"
#include "fresh.h"
#include "p2step.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/extended_p_square.hpp>
#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <limits>
using namespace boost::accumulators;
typedef accumulator_set<double, stats<tag::extended_p_square> > EP;
typedef accumulator_set<double, stats<tag::extended_p_square_quantile> > EL;
typedef accumulator_set<double, stats<tag::extended_p_square_quantile_quadratic> > EQ;

// markers: minimum, m quantiles, maximum and the middle between any two of them
NOINLINE void ep_ref(p2ref &r, double const *p, int m)
{
    r.start(2 * m + 3);
    r.dt[0] = 0; r.dt[2 * m + 2] = 1;
    for (int i = 0; i < m; ++i) r.dt[2 * i + 2] = p[i];
    for (int i = 1; i < 2 * m + 2; i += 2) r.dt[i] = (r.dt[i - 1] + r.dt[i + 1]) / 2;
    for (int i = 0; i < 2 * m + 3; ++i) r.t[i] = 1 + (2 * m + 2) * r.dt[i];
}
static double const PI1[1] = { 0.3 }, PI2[2] = { 0.2, 0.6 };
struct both
{
    std::vector<double> pr; EP a; p2ref r; int m, n;
    NOINLINE both(double const *p, int m_) : pr(p, p + m_), a(extended_p_square_probabilities = pr), m(m_), n(0) { ep_ref(r, p, m); }
    NOINLINE void feed(double x) { a(x); r.add(x); ++n; }
    NOINLINE void cmp()
    {
        auto e = extended_p_square(a);
        vf_assert((int)e.size() == m, "size");
        for (int i = 0; i < m; ++i)
        {
            vf_eq(e[i], r.q[2 * i + 2], "estimate");
            vf_assert(r.q[0] <= e[i] && e[i] <= r.q[2 * m + 2], "range");
            if (i) vf_assert(e[i - 1] <= e[i], "sorted");
        }
    }
};
NOINLINE void up(both &s, int n, bool strict)
{
    double x = vf_real(); s.feed(x);
    for (int i = 1; i < n; ++i) { double d = vf_real(); vf_assume(strict ? d > 0 : d >= 0); x += d; s.feed(x); }
}
// one probability: the plain P-square quantile
// @bound h_one any one probability in (0,1), 5 nondecreasing reals then 2 reals
HARNESS(h_one)
{
    double p = vf_real(); vf_assume(p > 0 && p < 1);
    both s(&p, 1); accumulator_set<double, stats<tag::p_square_quantile> > q(quantile_probability = p);
    double x = vf_real();
    for (int i = 0; i < 7; ++i)
    {
        if (i && i < 5) { double d = vf_real(); vf_assume(d >= 0); x += d; } else x = vf_real();
        s.feed(x); q(x);
        if (i >= 4) { s.cmp(); vf_eq(extended_p_square(s.a)[0], p_square_quantile(q), "same"); }
    }
    vf_cover("end");
}
// the start-up samples in any order
// @bound h_order one probability (1/4), 5 reals in any order, then 1 real
HARNESS(h_order)
{
    double p = 0.25; both s(&p, 1);
    for (int i = 0; i < 5; ++i) s.feed(vf_real());
    s.cmp(); s.feed(vf_real()); s.cmp();
    vf_cover("end");
}
// @bound h_order7 two probabilities, 7 reals: a rotation of an increasing sequence, reversed or not
HARNESS(h_order7)
{
    double p[2] = { 0.25, 0.5 }; both s(p, 2); double xs[7]; int k = vf_choice(7); bool rev = vf_choice(2);
    xs[0] = vf_real(); for (int i = 1; i < 7; ++i) { double d = vf_real(); vf_assume(d > 0); xs[i] = xs[i - 1] + d; }
    for (int i = 0; i < 7; ++i) { int j = (i + k) % 7; s.feed(xs[rev ? 6 - j : j]); }
    s.cmp();
    vf_cover("end");
}
// @bound h_two any two increasing probabilities, 7 increasing reals then 1 real
HARNESS(h_two)
{
    double p[2]; p[0] = vf_real(); p[1] = vf_real(); vf_assume(0 < p[0] && p[0] < p[1] && p[1] < 1);
    both s(p, 2); up(s, 7, true); s.cmp(); s.feed(vf_real()); s.cmp();
    vf_cover("end");
}
// @bound h_two2 probabilities {0.1,0.6}, 7 increasing reals then 2 reals
HARNESS(h_two2)
{
    double p[2] = { 0.1, 0.6 };
    both s(p, 2); up(s, 7, true); s.cmp(); s.feed(vf_real()); s.cmp(); s.feed(vf_real()); s.cmp();
    vf_cover("end");
}
// @bound h_three probabilities {0.25,0.5,0.75}, 9 increasing reals then 2 reals
HARNESS(h_three)
{
    double p[3] = { 0.25, 0.5, 0.75 };
    both s(p, 3); up(s, 9, true); s.cmp(); s.feed(vf_real()); s.cmp(); s.feed(vf_real()); s.cmp();
    vf_cover("end");
}
NOINLINE void history(double const *p, int m, int H, int N, int mul, int mod)
{
    both s(p, m);
    for (int i = 0; i < H; ++i) s.feed((double)((i * mul) % mod));
    s.cmp();
    for (int i = 0; i < N; ++i) { s.feed(vf_real()); s.cmp(); }
    vf_cover("end");
}
static double const P4[4] = { 0.01, 0.25, 0.7, 0.99 };
// @bound h_history 1..4 probabilities, 25 fixed samples, then 2 reals
HARNESS(h_history) { history(P4, 1 + vf_choice(4), 25, 2, 37, 101); }
// @bound h_history_rep 1..4 probabilities, 21 fixed samples with repetitions, then 2 reals
HARNESS(h_history_rep) { history(P4, 1 + vf_choice(4), 21, 2, 7, 9); }
// @bound h_history100 1..4 probabilities, 100 fixed samples, then 1 (thorough 2) real
HARNESS(h_history100) { history(P4, 1 + vf_choice(4), 100, VF_T(1, 2), 37, 101); }

static double const P12[12] = { 0.001, 0.01, 0.05, 0.1, 0.2, 0.33, 0.5, 0.6, 0.75, 0.9, 0.97, 0.999 };
// @bound h_big 12 probabilities, 150 fixed samples, then 1 real
HARNESS(h_big) { history(P12, 12, 150, 1, 37, 151); }
// ---- interpolated quantiles
NOINLINE double lin(double const *p, double const *h, int m, double q)
{
    for (int i = 0; i < m; ++i) if (q == p[i]) return h[i];
    for (int i = 1; i < m; ++i) if (p[i - 1] < q && q < p[i]) return h[i - 1] + (h[i] - h[i - 1]) * ((q - p[i - 1]) / (p[i] - p[i - 1]));
    return std::numeric_limits<double>::quiet_NaN();
}
// the parabola through the three nearest estimates (the neighbouring pair and the closer outer one)
NOINLINE double quad(double const *p, double const *h, int m, double q)
{
    for (int i = 0; i < m; ++i) if (q == p[i]) return h[i];
    for (int i = 1; i < m; ++i) if (p[i - 1] < q && q < p[i])
    {
        int k = i == 1 || (i < m - 1 && p[i] - q <= q - p[i - 1]) ? i - 1 : i - 2;
        double a = p[k], b = p[k + 1], c = p[k + 2];
        return h[k] * ((q - b) * (q - c) / ((a - b) * (a - c))) + h[k + 1] * ((q - a) * (q - c) / ((b - a) * (b - c)))
             + h[k + 2] * ((q - a) * (q - b) / ((c - a) * (c - b)));
    }
    return std::numeric_limits<double>::quiet_NaN();
}
template<typename A> NOINLINE void interp(int m, bool quadratic, int extra)
{
    static double const P[5][4] = { { 0.1, 0.5, 0.75, 0.9 }, { 0.25, 0.3, 0.8, 0.99 }, { 0.01, 0.02, 0.03, 0.04 }, { 0.5, 0.6, 0.8, 0.9 }, { 0.2, 0.4, 0.6, 0.8 } };
    double const *p = P[vf_choice(extra ? 2 : 5)];
    std::vector<double> pr(p, p + m); A a(extended_p_square_probabilities = pr); p2ref r; ep_ref(r, p, m);
    double x = vf_real();
    for (int i = 0; i < 2 * m + 3; ++i) { if (i) { double d = vf_real(); vf_assume(d > 0); x += d; } a(x); r.add(x); }
    for (int i = 0; i < extra; ++i) { double y = (double)(i * 5 % 7); a(y); r.add(y); }
    double h[4]; for (int i = 0; i < m; ++i) h[i] = r.q[2 * i + 2];
    double q = vf_real();
    double got = quantile(a, quantile_probability = q);
    if (q < p[0] || q > p[m - 1]) vf_assert(got != got, "nan");
    else vf_eq(got, quadratic ? quad(p, h, m, q) : lin(p, h, m, q), "interpolated");
    for (int i = 0; i < m; ++i) vf_eq(quantile(a, quantile_probability = p[i]), h[i], "exact");
    vf_eq(quantile(a, quantile_probability = q), got, "again");
    vf_cover("end");
}
// @bound h_linear 1..4 probabilities from 5 families, start-up samples arbitrary and increasing, any query probability
HARNESS(h_linear) { interp<EL>(1 + vf_choice(4), false, 0); }
// @bound h_quadratic 3..4 probabilities from 5 families, start-up samples arbitrary and increasing, any query probability
HARNESS(h_quadratic) { interp<EQ>(3 + vf_choice(2), true, 0); }
// @bound h_linear_later 2 probabilities from 2 families, 7 increasing reals, then a fixed one, any query probability
HARNESS(h_linear_later) { interp<EL>(2, false, 1); }
// @bound h_quadratic_later 3 probabilities from 2 families, 9 increasing reals, then a fixed one, any query probability
HARNESS(h_quadratic_later) { interp<EQ>(3, true, 1); }
// with one or two probabilities there is no parabola: estimates at the probabilities themselves, never outside memory
// @bound h_quadratic_few 1..2 probabilities, 7 increasing reals, any query probability
HARNESS(h_quadratic_few)
{
    int m = 1 + vf_choice(2); double const p[2] = { 0.25, 0.5 };
    std::vector<double> pr(p, p + m); EQ a(extended_p_square_probabilities = pr);
    double x = vf_real(), h[7];
    for (int i = 0; i < 2 * m + 3; ++i) { if (i) { double d = vf_real(); vf_assume(d > 0); x += d; } h[i] = x; a(x); }
    for (int i = 0; i < m; ++i) vf_eq(quantile(a, quantile_probability = p[i]), h[2 * i + 2], "exact");
    double q = vf_real(), got = quantile(a, quantile_probability = q);
    if (q < p[0] || q > p[m - 1]) vf_assert(got != got, "nan");
    else vf_assert(h[2] <= got && got <= h[2 * m], "between");
    vf_cover("end");
}
// ints: the same estimates as for the converted samples
// @bound h_int 1..2 probabilities, start-up ints in any nondecreasing order then 2 (quick: 1 for two probabilities) ints in [-1000,1000]; quantile of any probability
HARNESS(h_int)
{
    int m = 1 + vf_choice(2), n = 2 * m + 3; double const *p = m == 1 ? (static_cast<double const *>(PI1)) : PI2;
    std::vector<double> pr(p, p + m);
    accumulator_set<int, stats<tag::extended_p_square> > a(extended_p_square_probabilities = pr); both s(p, m);
    accumulator_set<int, stats<tag::extended_p_square_quantile> > l(extended_p_square_probabilities = pr); EL ld(extended_p_square_probabilities = pr);
    int x = (int)vf_int(-1000, 1000), last = x;
    for (int i = 0; i < n + (m == 1 ? 2 : VF_T(1, 2)); ++i)
    {
        if (i) x = (int)vf_int(-1000, 1000);
        if (i && i < n) vf_assume(x >= last);
        last = x; a(x); s.feed(x); l(x); ld(x);
        if (i + 1 >= n)
        {
            auto e = extended_p_square(a);
            for (int k = 0; k < m; ++k) vf_eq(e[k], s.r.q[2 * k + 2], "estimate");
        }
    }
    double q = m == 1 ? p[0] : vf_real_in(p[0], p[1]);
    vf_eq(quantile(l, quantile_probability = q), quantile(ld, quantile_probability = q), "quantile");
    vf_cover("end");
}
// inductive step: from an arbitrary state of the markers after n samples, the next one does exactly what the algorithm prescribes
// @bound h_step 1..2 probabilities, any nondecreasing heights; n = 40, 1000, 200003 or 2^33+1 samples so far; inner positions around the desired ones (6 patterns); one arbitrary sample
HARNESS(h_step)
{
    static double const ns[4] = { 40, 1000, 200003, 8589934593.0 };
    double n = ns[vf_choice(4)]; int m = 1 + vf_choice(2); both s(m == 1 ? PI1 : PI2, m);
    for (int i = 0; i < 18; ++i) s.feed(100 + (double)((i * 7) % 19));
    if (!p2_inject(s.a, s.r, 18, n, 2 + m + 4 * (2 * m + 4))) return;
    s.feed(vf_real()); s.cmp();
    vf_assert(count(s.a) == (std::size_t)n + 1, "count");
    vf_cover("end");
}
