#include "common.h"
#include "fresh.h"
#include "store.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/weighted_peaks_over_threshold.hpp>
#include <boost/accumulators/statistics/pot_quantile.hpp>
#include <boost/accumulators/statistics/pot_tail_mean.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <cmath>
using namespace boost::accumulators;

template<typename LR> struct side;
template<> struct side<left> { static int const s = -1; static double level(double p) { return p; } };
template<> struct side<right> { static int const s = 1; static double level(double p) { return 1 - p; } };

// the documented fit, from k mirrored samples z with weights w beyond the (mirrored) threshold u, carrying the fraction `beyond`
struct fit
{
    double u_bar, beta_bar, xi;
    NOINLINE void make(double const *z, double const *w, int k, double u, double beyond)
    {
        double W = 0, m = 0, q = 0;
        for (int i = 0; i < k; ++i) { W += w[i]; m += w[i] * z[i]; }
        m /= W;
        for (int i = 0; i < k; ++i) q += w[i] * (z[i] - m) * (z[i] - m);
        q /= W;
        from(m, q, u, beyond);
    }
    NOINLINE void from(double m, double q, double u, double beyond)      // mean and variance beyond the threshold
    {
        vf_assume(q != 0);
        double t = (m - u) * (m - u) / q;
        xi = (1 - t) / 2;
        vf_assume(xi != 0 && xi != 1);
        double beta = (m - u) / 2 * (1 + t);
        beta_bar = beta * std::pow(beyond, xi);
        u_bar = u - beta_bar * (std::pow(beyond, -xi) - 1) / xi;
    }
    template<typename R> NOINLINE void check(R const &r) const
    {
        vf_eq(r.template get<2>(), xi, "xi"); vf_eq(r.template get<1>(), beta_bar, "beta"); vf_eq(r.template get<0>(), u_bar, "u");
    }
    // quantile and tail mean at level a (mass beyond), mirrored back by s
    double q(double a, int s) const { return s * (u_bar + beta_bar / xi * (std::pow(a, -xi) - 1)); }
    double mean(double a, int s) const { return q(a, s) - s * beta_bar / (xi - 1) * std::pow(a, -xi); }
};
static double const ones[64] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 };

// ---- threshold value
template<typename LR, typename T> NOINLINE void pot_value(int N)
{
    int const s = side<LR>::s;
    double u = fresh<T>();
    accumulator_set<T, stats<tag::peaks_over_threshold<LR> > > a(pot_threshold_value = u);
    accumulator_set<T, stats<tag::pot_quantile<LR>(with_threshold_value), tag::pot_tail_mean<LR>(with_threshold_value)> > b(pot_threshold_value = u);
    double z[8]; int k = 0;
    for (int i = 0; i < N; ++i)
    {
        T x = fresh<T>(); a(x); b(x);
        if (s * x > s * u) z[k++] = s * x;
        if (k < 2 || i + 2 < N) continue;
        fit f; f.make(z, ones, k, s * u, (double)k / (i + 1));
        f.check(peaks_over_threshold(a)); f.check(peaks_over_threshold(a));
        double p = vf_real(); vf_assume(p > 0 && p < 1);
        vf_eq(quantile(b, quantile_probability = p), f.q(side<LR>::level(p), s), "quantile");
        vf_eq(tail_mean(b, quantile_probability = p), f.mean(side<LR>::level(p), s), "tail_mean");
    }
    vf_cover("end");
}
// @bound h_value_right 4 (thorough 5) reals, any threshold, read after each of the last two
HARNESS(h_value_right) { pot_value<right, double>(VF_T(4, 5)); }
// @bound h_value_left 4 (thorough 5) reals, any threshold, read after each of the last two
HARNESS(h_value_left) { pot_value<left, double>(VF_T(4, 5)); }

// @bound h_value_int 3 ints in [-1000,1000], any integral threshold, both tails
HARNESS(h_value_int) { if (vf_choice(2)) pot_value<right, int>(3); else pot_value<left, int>(3); }

template<typename LR, typename T, typename W_> NOINLINE void wvalue(int N)
{
    int const s = side<LR>::s;
    static W_ const wv[5] = { 2, 1, W_(boost::is_same<W_, int>::value ? 4 : 0.5), 3, 5 };
    double u = fresh<T>();
    accumulator_set<T, stats<tag::weighted_peaks_over_threshold<LR> >, W_> a(pot_threshold_value = u);
    accumulator_set<T, stats<tag::weighted_pot_quantile<LR>(with_threshold_value), tag::weighted_pot_tail_mean<LR>(with_threshold_value)>, W_> b(pot_threshold_value = u);
    double z[8], w[8], W = 0, K = 0; int k = 0;
    for (int i = 0; i < N; ++i)
    {
        T x = fresh<T>(); W_ wt = wv[i]; a(x, weight = wt); b(x, weight = wt); W += wt;
        if (s * x > s * u) { z[k] = s * x; w[k++] = wt; K += wt; }
        if (k < 2 || i + 2 < N) continue;
        fit f; f.make(z, w, k, s * u, K / W);
        f.check(weighted_peaks_over_threshold(a)); f.check(weighted_peaks_over_threshold(a));
        double p = vf_real(); vf_assume(p > 0 && p < 1);
        vf_eq(quantile(b, quantile_probability = p), f.q(side<LR>::level(p), s), "quantile");
        vf_eq(tail_mean(b, quantile_probability = p), f.mean(side<LR>::level(p), s), "tail_mean");
    }
    vf_cover("end");
}
// @bound h_wvalue_right 4 (thorough 5) reals with fixed weights, any threshold, read after each of the last two
HARNESS(h_wvalue_right) { wvalue<right, double, double>(VF_T(4, 5)); }
// @bound h_wvalue_left 4 (thorough 5) reals with fixed weights, any threshold, read after each of the last two
HARNESS(h_wvalue_left) { wvalue<left, double, double>(VF_T(4, 5)); }

// @bound h_wvalue_int 3 ints with int weights, any integral threshold, both tails
HARNESS(h_wvalue_int) { if (vf_choice(2)) wvalue<right, int, int>(3); else wvalue<left, int, int>(3); }
// @bound h_wvalue_mixed 3 ints with real weights, any integral threshold, both tails
HARNESS(h_wvalue_mixed) { if (vf_choice(2)) wvalue<right, int, double>(3); else wvalue<left, int, double>(3); }

// ---- threshold probability
// samples sorted by extremity, most extreme first
template<typename LR> NOINLINE void ins(double *z, double *w, int n, double x, double wt)
{
    int j = n; x *= side<LR>::s;
    while (j > 0 && x > z[j - 1]) { z[j] = z[j - 1]; w[j] = w[j - 1]; --j; }
    z[j] = x; w[j] = wt;
}
template<typename LR, typename T> NOINLINE void prob(int N, int C)
{
    int const s = side<LR>::s;
    double const tp = side<LR>::level(vf_choice(2) ? 0.5 : 0.75);       // 0.5 or 0.75 of the samples beyond
    accumulator_set<T, stats<tag::peaks_over_threshold_prob<LR> > > a(tag::tail<LR>::cache_size = C, pot_threshold_probability = tp);
    accumulator_set<T, stats<tag::pot_quantile<LR>(with_threshold_probability), tag::pot_tail_mean<LR>(with_threshold_probability)> >
        b(tag::tail<LR>::cache_size = C, pot_threshold_probability = tp);
    double z[8], w[8], xs[8];
    for (int i = 0; i < N; ++i)
    {
        T x = fresh<T>(); xs[i] = x; for (int j = 0; j < i; ++j) vf_assume(x != xs[j]);
        a(x); b(x); ins<LR>(z, w, i, x, 1);
        if (i + 2 < N) continue;
        double lv = side<LR>::level(tp); int n = (int)std::ceil((i + 1) * lv), have = i + 1 < C ? i + 1 : C;
        double p = vf_real(); vf_assume(p > 0 && p < 1);
        if (n < have && n >= 2)
        {
            fit f; f.make(z, ones, n, z[n - 1], lv);
            f.check(peaks_over_threshold(a)); f.check(peaks_over_threshold(a));
            vf_eq(quantile(b, quantile_probability = p), f.q(side<LR>::level(p), s), "quantile");
            vf_eq(tail_mean(b, quantile_probability = p), f.mean(side<LR>::level(p), s), "tail_mean");
        }
        else if (n > have)
            for (int k = 0; k < 2; ++k)
            {
                auto r = peaks_over_threshold(a);
                vf_assert(r.template get<0>() != r.template get<0>() && r.template get<1>() != r.template get<1>() && r.template get<2>() != r.template get<2>(), "nan");
            }
    }
    vf_cover("end");
}
// @bound h_prob_right 4 distinct reals in any order, cache 2..4, half or three quarters beyond the threshold, read after each of the last two
HARNESS(h_prob_right) { prob<right, double>(4, 2 + vf_choice(3)); }
// @bound h_prob_left 4 distinct reals in any order, cache 2..4, half or three quarters beyond the threshold, read after each of the last two
HARNESS(h_prob_left) { prob<left, double>(4, 2 + vf_choice(3)); }

template<typename LR, typename T> NOINLINE void wprob(int N, int C)
{
    int const s = side<LR>::s;
    static double const wv[5] = { 2, 1, 0.5, 3, 1.5 };
    double const tp = side<LR>::level(vf_choice(2) ? 0.5 : 0.75);
    accumulator_set<T, stats<tag::weighted_peaks_over_threshold_prob<LR> >, double> a(tag::tail<LR>::cache_size = C, pot_threshold_probability = tp);
    accumulator_set<T, stats<tag::weighted_pot_quantile<LR>(with_threshold_probability), tag::weighted_pot_tail_mean<LR>(with_threshold_probability)>, double>
        b(tag::tail<LR>::cache_size = C, pot_threshold_probability = tp);
    double z[8], w[8], W = 0, xs[8];
    for (int i = 0; i < N; ++i)
    {
        T x = fresh<T>(); double wt = wv[i]; xs[i] = x; for (int j = 0; j < i; ++j) vf_assume(x != xs[j]);
        a(x, weight = wt); b(x, weight = wt); ins<LR>(z, w, i, x, wt); W += wt;
        if (i + 2 < N) continue;
        double lv = side<LR>::level(tp), t = 0, p = vf_real(); vf_assume(p > 0 && p < 1); int n = 0, have = i + 1 < C ? i + 1 : C;
        while (n < have && t < W * lv) t += w[n++];
        if (t >= W * lv && n >= 2)
        {
            fit f; f.make(z, w, n, z[n - 1], lv);
            f.check(weighted_peaks_over_threshold(a)); f.check(weighted_peaks_over_threshold(a));
            vf_eq(quantile(b, quantile_probability = p), f.q(side<LR>::level(p), s), "quantile");
            vf_eq(tail_mean(b, quantile_probability = p), f.mean(side<LR>::level(p), s), "tail_mean");
        }
        else if (t < W * lv)
            for (int k = 0; k < 2; ++k)
            {
                auto r = weighted_peaks_over_threshold(a);
                vf_assert(r.template get<0>() != r.template get<0>() && r.template get<1>() != r.template get<1>() && r.template get<2>() != r.template get<2>(), "nan");
            }
    }
    vf_cover("end");
}
// @bound h_wprob_right 4 (thorough 5) distinct reals with fixed weights, cache 2..3, two threshold probabilities, read after each of the last two
HARNESS(h_wprob_right) { wprob<right, double>(VF_T(4, 5), 2 + vf_choice(2)); }
// @bound h_wprob_left 4 (thorough 5) distinct reals with fixed weights, cache 2..3, two threshold probabilities, read after each of the last two
HARNESS(h_wprob_left) { wprob<left, double>(VF_T(4, 5), 2 + vf_choice(2)); }
// @bound h_prob_int 4 distinct ints, cache 3..4
HARNESS(h_prob_int) { if (vf_choice(2)) prob<right, int>(4, 3 + vf_choice(2)); else prob<left, int>(4, 3 + vf_choice(2)); }
// @bound h_wprob_int 3 distinct ints with fixed real weights, cache 2..3
HARNESS(h_wprob_int) { if (vf_choice(2)) wprob<right, int>(3, 2 + vf_choice(2)); else wprob<left, int>(3, 2 + vf_choice(2)); }
// ---- longer streams
// @bound h_long_value 50 reals, one arbitrary, threshold 20, both tails, weighted (one weight arbitrary) and not, read half way and at the end
template<typename LR> NOINLINE void long_value()
{
    int const s = side<LR>::s, N = 50; double const u = 20;
    accumulator_set<double, stats<tag::pot_quantile<LR>(with_threshold_value), tag::pot_tail_mean<LR>(with_threshold_value)> > b(pot_threshold_value = u);
    accumulator_set<double, stats<tag::weighted_pot_quantile<LR>(with_threshold_value), tag::weighted_pot_tail_mean<LR>(with_threshold_value)>, double> v(pot_threshold_value = u);
    double z[N], w[N], W = 0, K = 0; int k = 0;
    for (int i = 0; i < N; ++i)
    {
        double x = i == 22 ? vf_real() : (double)(i * 37 % 53), wt = i == 21 ? vf_real() : 1 + i % 4; vf_assume(wt > 0);
        b(x); v(x, weight = wt); W += wt;
        if (s * x > s * u) { z[k] = s * x; w[k++] = wt; K += wt; }
        if (i != 25 && i != N - 1) continue;
        double p = vf_choice(2) ? 0.25 : 0.9;
        fit f; f.make(z, ones, k, s * u, (double)k / (i + 1));
        f.check(peaks_over_threshold(b));
        vf_eq(quantile(b, quantile_probability = p), f.q(side<LR>::level(p), s), "quantile");
        vf_eq(tail_mean(b, quantile_probability = p), f.mean(side<LR>::level(p), s), "tail_mean");
        fit g; g.make(z, w, k, s * u, K / W);
        g.check(weighted_peaks_over_threshold(v));
        vf_eq(quantile(v, quantile_probability = p), g.q(side<LR>::level(p), s), "weighted_quantile");
        vf_eq(tail_mean(v, quantile_probability = p), g.mean(side<LR>::level(p), s), "weighted_tail_mean");
    }
    vf_cover("end");
}
HARNESS(h_long_value) { if (vf_choice(2)) long_value<left>(); else long_value<right>(); }
// @bound h_long_prob 50 reals, one arbitrary, cache 20, threshold probability 0.3 beyond, both tails, weighted and not, read half way and at the end
template<typename LR> NOINLINE void long_prob()
{
    int const s = side<LR>::s, N = 50, C = 20;
    double const tp = side<LR>::level(0.3);
    accumulator_set<double, stats<tag::pot_quantile<LR>(with_threshold_probability), tag::pot_tail_mean<LR>(with_threshold_probability)> >
        b(tag::tail<LR>::cache_size = C, pot_threshold_probability = tp);
    accumulator_set<double, stats<tag::weighted_pot_quantile<LR>(with_threshold_probability), tag::weighted_pot_tail_mean<LR>(with_threshold_probability)>, double>
        v(tag::tail<LR>::cache_size = C, pot_threshold_probability = tp);
    double z[N + 1], w[N + 1], xs[N], W = 0, lv = side<LR>::level(tp);
    for (int i = 0; i < N; ++i)
    {
        double x = i == 22 ? vf_real() : (double)(i * 37 % 53), wt = 1 + i % 3; xs[i] = x;
        if (i == 22) for (int j = 0; j < N; ++j) vf_assume(x != (double)(j * 37 % 53));
        b(x); v(x, weight = wt); ins<LR>(z, w, i, x, wt); W += wt;
        if (i != 25 && i != N - 1) continue;
        double p = vf_choice(2) ? 0.25 : 0.9;
        int n = (int)std::ceil((i + 1) * lv);
        if (n < C)
        {
            fit f; f.make(z, ones, n, z[n - 1], lv);
            f.check(peaks_over_threshold(b));
            vf_eq(quantile(b, quantile_probability = p), f.q(side<LR>::level(p), s), "quantile");
            vf_eq(tail_mean(b, quantile_probability = p), f.mean(side<LR>::level(p), s), "tail_mean");
        }
        double t = 0; int m = 0; while (m < C && t < W * lv) t += w[m++];
        if (t >= W * lv)
        {
            fit g; g.make(z, w, m, z[m - 1], lv);
            g.check(weighted_peaks_over_threshold(v));
            vf_eq(quantile(v, quantile_probability = p), g.q(side<LR>::level(p), s), "weighted_quantile");
            vf_eq(tail_mean(v, quantile_probability = p), g.mean(side<LR>::level(p), s), "weighted_tail_mean");
        }
    }
    vf_cover("end");
}
HARNESS(h_long_prob) { if (vf_choice(2)) long_prob<left>(); else long_prob<right>(); }
// @bound h_wvalue_any 3 reals with any positive weights, any threshold, both tails, read after the last
template<typename LR> NOINLINE void wvalue_any()
{
    int const s = side<LR>::s, N = 3; double u = vf_real();
    accumulator_set<double, stats<tag::weighted_peaks_over_threshold<LR> >, double> a(pot_threshold_value = u);
    double z[N], w[N], W = 0, K = 0; int k = 0;
    for (int i = 0; i < N; ++i)
    {
        double x = vf_real(), wt = vf_real(); vf_assume(wt > 0); a(x, weight = wt); W += wt;
        if (s * x > s * u) { z[k] = s * x; w[k++] = wt; K += wt; }
    }
    if (k >= 2) { fit f; f.make(z, w, k, s * u, K / W); f.check(weighted_peaks_over_threshold(a)); }
    vf_cover("end");
}
HARNESS(h_wvalue_any) { if (vf_choice(2)) wvalue_any<left>(); else wvalue_any<right>(); }

// ---- one more sample after very many: any mean and variance beyond the threshold
template<typename LR> NOINLINE void pot_step()
{
    int const s = side<LR>::s; double const u = s * 10.;
    static long const ns[3] = { 1000, 70001, (1L << 33) + 1 }, ks[3] = { 17, 65537, 1L << 32 };
    accumulator_set<double, stats<tag::peaks_over_threshold<LR> > > a(pot_threshold_value = u);
    accumulator_set<double, stats<tag::weighted_peaks_over_threshold<LR> >, double> b(pot_threshold_value = u);
    double const X[5] = { 13, 2, 17.5, 29, 7 }, Q[5] = { 1, 2, 0.5, 4, 1.25 };
    for (int i = 0; i < 5; ++i) { a(s * X[i]); b(s * X[i], weight = Q[i]); }
    int c = vf_choice(3); long n = ns[c], k = ks[c]; double N = (double)n, K = (double)k;
    double m = vf_real(), v = vf_real(), x = vf_real(); vf_assume(m > 10 && v > 0);
    { store st; { oarchive o(st); a.serialize(o, 0); } exactly(st, 9);
      double s1 = s * 59.5, s2 = 169 + 17.5 * 17.5 + 841; int p = seekz(st, 5), q = seekz(st, 3), i = seek(st, &s1, 1), j = seek(st, &s2, 1);
      st.z[p] = n; st.z[q] = k; st.d[i] = s * K * m; st.d[j] = K * (v + m * m); put(a, st); }
    { store st; { oarchive o(st); b.serialize(o, 0); } exactly(st, 10);
      double w0 = 8.75, w1 = 5.5, s1 = s * (13 + 8.75 + 116), s2 = 169 + 0.5 * 17.5 * 17.5 + 4 * 841.;
      int q = seek(st, &w0, 1), r = seek(st, &w1, 1), i = seek(st, &s1, 1), j = seek(st, &s2, 1);
      st.d[q] = N; st.d[r] = K; st.d[i] = s * K * m; st.d[j] = K * (v + m * m); put(b, st); }
    a(s * x); b(s * x, weight = 1);
    N += 1; double t1 = K * m, t2 = K * (v + m * m);
    if (x > 10) { K += 1; t1 += x; t2 += x * x; }
    fit f; f.from(t1 / K, t2 / K - t1 / K * (t1 / K), 10, K / N);
    f.check(peaks_over_threshold(a)); f.check(weighted_peaks_over_threshold(b));
    vf_cover("end");
}
// @bound h_step_right 17 of 1000, 2^16+1 of 70001 or 2^32 of 2^33+1 samples beyond the threshold with any mean and variance, one arbitrary sample, weighted and not
HARNESS(h_step_right) { pot_step<right>(); }
// @bound h_step_left 17 of 1000, 2^16+1 of 70001 or 2^32 of 2^33+1 samples beyond the threshold with any mean and variance, one arbitrary sample, weighted and not
HARNESS(h_step_left) { pot_step<left>(); }
