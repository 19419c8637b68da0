#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/weighted_tail_quantile.hpp>
#include <boost/accumulators/statistics/weighted_tail_mean.hpp>
#include <boost/accumulators/statistics/weighted_tail_variate_means.hpp>
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/tail_mean.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <stdexcept>
using namespace boost::accumulators;
#define CACHE(c) tag::tail<LR>::cache_size = (c)

template<typename LR> struct side;
template<> struct side<left> { template<typename T> static bool more(T a, T b) { return a < b; } static double level(double p) { return p; } };
template<> struct side<right> { template<typename T> static bool more(T a, T b) { return b < a; } static double level(double p) { return 1 - p; } };

template<typename LR, typename T> NOINLINE void order(T const *xs, int n, T *s, int *id)
{
    for (int i = 0; i < n; ++i)
    {
        int j = i;
        while (j > 0 && side<LR>::more(xs[i], s[j - 1])) { s[j] = s[j - 1]; id[j] = id[j - 1]; --j; }
        s[j] = xs[i]; id[j] = i;
    }
}
// number of samples, from the extreme end, whose weight first reaches the level; n+1: not within the first k
template<typename W> NOINLINE int reach(W const *w, int const *id, int k, int n, double level)
{
    W total = 0, t = 0;
    for (int i = 0; i < n; ++i) total += w[i];
    for (int i = 0; i < k; ++i) { t += w[id[i]]; if ((double)t >= total * level) return i + 1; }
    return n + 1;
}

template<typename T, typename W, typename LR> NOINLINE void mixed(int Cmax, int N)
{
    typedef std::vector<double> V; typedef tag::covariate1 K;
    int C = 1 + vf_choice(Cmax), n = 1 + vf_choice(N);
    accumulator_set<T, stats<tag::non_coherent_weighted_tail_mean<LR> >, W> m(CACHE(C));
    accumulator_set<T, stats<tag::absolute_weighted_tail_variate_means<LR, V, K> >, W> a(CACHE(C));
    accumulator_set<T, stats<tag::relative_weighted_tail_variate_means<LR, V, K> >, W> b(CACHE(C));
    T xs[8], s[8]; W ws[8]; int id[8]; V vs[8];
    for (int i = 0; i < n; ++i)
    {
        xs[i] = fresh<T>(); ws[i] = fresh<W>(); vf_assume(ws[i] > 0); vs[i].resize(1); vs[i][0] = vf_real();
        for (int j = 0; j < i; ++j) vf_assume(xs[i] != xs[j]);
        m(xs[i], weight = ws[i]); a(xs[i], weight = ws[i], covariate1 = vs[i]); b(xs[i], covariate1 = vs[i], weight = ws[i]);
    }
    double p = vf_choice(2) ? 0.375 : 0.75;
    order<LR>(xs, n, s, id);
    int k = n < C ? n : C, r = reach(ws, id, k, n, side<LR>::level(p));
    double t = 0, w = 0, v = 0; if (r <= k) { for (int i = 0; i < r; ++i) { double e = (double)ws[id[i]]; t += e * (double)s[i]; w += e; v += e * vs[id[i]][0]; } vf_assume(t != 0); }
    double got = non_coherent_weighted_tail_mean(m, quantile_probability = p);
    auto ra = weighted_tail_variate_means(a, quantile_probability = p); auto rb = relative_weighted_tail_variate_means(b, quantile_probability = p);
    if (r <= k) { vf_eq(got, t / w, "mean"); vf_eq(*ra.begin(), v / w, "absolute"); vf_eq(*rb.begin(), v / t, "relative"); }
    else { vf_assert(got != got, "mean_nan"); vf_assert(*ra.begin() != *ra.begin(), "absolute_nan"); vf_assert(*rb.begin() != *rb.begin(), "relative_nan"); }
    vf_cover("end");
}
// @bound h_mixed_id cache 1..2, 1..2 (thorough 3) distinct ints with positive real weights and a real variate, two probabilities, both tails
HARNESS(h_mixed_id) { if (vf_choice(2)) mixed<int, double, left>(2, VF_T(2, 3)); else mixed<int, double, right>(2, VF_T(2, 3)); }
// @bound h_mixed_di cache 1..2, 1..2 (thorough 3) distinct reals with positive int weights and a real variate, two probabilities, both tails
HARNESS(h_mixed_di) { if (vf_choice(2)) mixed<double, int, left>(2, VF_T(2, 3)); else mixed<double, int, right>(2, VF_T(2, 3)); }

template<typename LR> NOINLINE void stat(int Cmax, int N, bool anyp)
{
    int C = 1 + vf_choice(Cmax), n = 1 + vf_choice(N);
    accumulator_set<double, stats<tag::weighted_tail_quantile<LR> >, double> q(CACHE(C));
    accumulator_set<double, stats<tag::non_coherent_weighted_tail_mean<LR> >, double> m(CACHE(C));
    double xs[8], ws[8], s[8]; int id[8];
    for (int i = 0; i < n; ++i)
    {
        xs[i] = vf_real(); ws[i] = vf_real(); vf_assume(ws[i] > 0);
        for (int j = 0; j < i; ++j) vf_assume(xs[i] != xs[j]);
        q(xs[i], weight = ws[i]); m(xs[i], weight = ws[i]);
    }
    static double const ps[5] = { 0.1, 0.3, 0.5, 0.75, 0.95 };
    double p;
    if (anyp) { p = vf_real(); vf_assume(p > 0 && p < 1); } else p = ps[vf_choice(5)];
    order<LR>(xs, n, s, id);
    int k = n < C ? n : C, r = reach(ws, id, k, n, side<LR>::level(p));
    double got_q = quantile(q, quantile_probability = p), got_m = non_coherent_weighted_tail_mean(m, quantile_probability = p);
    if (r <= k)
    {
        double t = 0, w = 0; for (int i = 0; i < r; ++i) { t += ws[id[i]] * s[i]; w += ws[id[i]]; }
        vf_eq(got_q, s[r - 1], "quantile"); vf_eq(got_m, t / w, "mean");
    }
    else { vf_assert(got_q != got_q, "quantile_nan"); vf_assert(got_m != got_m, "mean_nan"); }
    vf_cover("end");
}
// @bound h_left cache 1..3, 1..3 distinct reals with any positive weights, any probability in (0,1)
HARNESS(h_left) { stat<left>(3, 3, true); }
// @bound h_right cache 1..3, 1..3 distinct reals with any positive weights, any probability in (0,1)
HARNESS(h_right) { stat<right>(3, 3, true); }
// @bound h_left4 cache 1..4, 1..4 distinct reals with any positive weights, five probabilities
HARNESS(h_left4) { stat<left>(4, VF_T(4, 5), false); }
// @bound h_right4 cache 1..4, 1..4 distinct reals with any positive weights, five probabilities
HARNESS(h_right4) { stat<right>(4, VF_T(4, 5), false); }

typedef std::vector<double> V;
template<typename LR> NOINLINE void variates(int Cmax, int N)
{
    typedef tag::covariate1 K;
    int C = 1 + vf_choice(Cmax), n = 1 + vf_choice(N), d = 1 + vf_choice(2);
    accumulator_set<double, stats<tag::absolute_weighted_tail_variate_means<LR, V, K> >, double> a(CACHE(C));
    accumulator_set<double, stats<tag::relative_weighted_tail_variate_means<LR, V, K> >, double> b(CACHE(C));
    double xs[8], ws[8], s[8]; V vs[8]; int id[8];
    for (int i = 0; i < n; ++i)
    {
        xs[i] = vf_real(); ws[i] = vf_real(); vf_assume(ws[i] > 0); vs[i].resize(d);
        for (int j = 0; j < i; ++j) vf_assume(xs[i] != xs[j]);
        for (int j = 0; j < d; ++j) vs[i][j] = vf_real();
        a(xs[i], covariate1 = vs[i], weight = ws[i]); b(xs[i], weight = ws[i], covariate1 = vs[i]);
    }
    static double const ps[4] = { 0.1, 0.4, 0.5, 0.8 };
    double p = ps[vf_choice(4)];
    order<LR>(xs, n, s, id);
    int k = n < C ? n : C, r = reach(ws, id, k, n, side<LR>::level(p));
    double t = 0, w = 0;
    if (r <= k) { for (int i = 0; i < r; ++i) { t += ws[id[i]] * s[i]; w += ws[id[i]]; } vf_assume(t != 0); }
    auto ra = weighted_tail_variate_means(a, quantile_probability = p);
    auto rb = relative_weighted_tail_variate_means(b, quantile_probability = p);
    vf_assert((int)ra.size() == d && (int)rb.size() == d, "size");
    auto ia = ra.begin(); auto ib = rb.begin();
    for (int j = 0; j < d; ++j, ++ia, ++ib)
    {
        if (r <= k)
        {
            double v = 0; for (int i = 0; i < r; ++i) v += ws[id[i]] * vs[id[i]][j];
            vf_eq(*ia, v / w, "absolute"); vf_eq(*ib, v / t, "relative");
        }
        else { vf_assert(*ia != *ia, "absolute_nan"); vf_assert(*ib != *ib, "relative_nan"); }
    }
    vf_cover("end");
}
// @bound h_variates_left cache 1..3, 1..3 distinct reals with any positive weights and vector variates of dimension 1..2, four probabilities
HARNESS(h_variates_left) { variates<left>(3, 3); }
// @bound h_variates_right cache 1..3, 1..3 distinct reals with any positive weights and vector variates of dimension 1..2, four probabilities
HARNESS(h_variates_right) { variates<right>(3, 3); }

// integer samples and weights; no NaN for int, so the quantile throws
template<typename LR> NOINLINE void ints()
{
    int C = 1 + vf_choice(3), n = 1 + vf_choice(3);
    accumulator_set<int, stats<tag::weighted_tail_quantile<LR>, tag::non_coherent_weighted_tail_mean<LR> >, int> q(CACHE(C));
    int xs[8], ws[8], s[8], id[8];
    for (int i = 0; i < n; ++i)
    {
        xs[i] = fresh<int>(); ws[i] = (int)vf_int(1, 1000);
        for (int j = 0; j < i; ++j) vf_assume(xs[i] != xs[j]);
        q(xs[i], weight = ws[i]);
    }
    double p = vf_choice(2) ? 0.25 : 0.625;
    order<LR>(xs, n, s, id);
    int k = n < C ? n : C, r = reach(ws, id, k, n, side<LR>::level(p));
    double m = non_coherent_weighted_tail_mean(q, quantile_probability = p);
    bool threw = false; int got = 0;
    try { got = quantile(q, quantile_probability = p); } catch (std::runtime_error const &) { threw = true; }
    if (r <= k)
    {
        double t = 0, w = 0; for (int i = 0; i < r; ++i) { t += (double)ws[id[i]] * s[i]; w += ws[id[i]]; }
        vf_assert(!threw && got == s[r - 1], "quantile"); vf_eq(m, t / w, "mean");
    }
    else { vf_assert(threw, "quantile_throws"); vf_assert(m != m, "mean_nan"); }
    vf_cover("end");
}
// @bound h_int_left cache 1..3, 1..3 distinct ints with weights 1..1000, two probabilities
HARNESS(h_int_left) { ints<left>(); }
// @bound h_int_right cache 1..3, 1..3 distinct ints with weights 1..1000, two probabilities
HARNESS(h_int_right) { ints<right>(); }

// equal weights: the unweighted statistics
template<typename LR> NOINLINE void equal_weights(int N)
{
    int C = 1 + vf_choice(N), n = 1 + vf_choice(N);
    accumulator_set<double, stats<tag::weighted_tail_quantile<LR>, tag::non_coherent_weighted_tail_mean<LR> >, double> a(CACHE(C));
    accumulator_set<double, stats<tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> > > b(CACHE(C));
    double w = vf_real(); vf_assume(w > 0);
    for (int i = 0; i < n; ++i) { double x = vf_real(); a(x, weight = w); b(x); }
    double p = vf_real(); vf_assume(p > 0 && p < 1);
    vf_eq(quantile(a, quantile_probability = p), quantile(b, quantile_probability = p), "quantile");
    vf_eq(non_coherent_tail_mean(a, quantile_probability = p), non_coherent_tail_mean(b, quantile_probability = p), "mean");
    vf_cover("end");
}
// @bound h_equal_left cache 1..3, 1..3 reals with one common weight, any probability in (0,1)
HARNESS(h_equal_left) { equal_weights<left>(3); }
// @bound h_equal_right cache 1..3, 1..3 reals with one common weight, any probability in (0,1)
HARNESS(h_equal_right) { equal_weights<right>(3); }

// more samples
// @bound h_long cache 10, 30 reals with weights, one sample and one weight arbitrary, four probabilities
HARNESS(h_long)
{
    typedef right LR;
    accumulator_set<double, stats<tag::weighted_tail_quantile<LR>, tag::non_coherent_weighted_tail_mean<LR> >, double> a(CACHE(10));
    double xs[30], ws[30], s[30]; int id[30];
    for (int i = 0; i < 30; ++i)
    {
        xs[i] = i == 17 ? vf_real() : (double)((i * 17) % 31) - 12; ws[i] = 1 + (i * 5) % 7;
        if (i == 20) { ws[i] = vf_real(); vf_assume(ws[i] > 0); }
        a(xs[i], weight = ws[i]);
    }
    for (int i = 0; i < 30; ++i) if (i != 17) vf_assume(xs[17] != xs[i]);
    double const ps[4] = { 0.5, 0.75, 0.9, 0.97 };
    double p = ps[vf_choice(4)];
    order<LR>(xs, 30, s, id);
    int r = reach(ws, id, 10, 30, 1 - p);
    double got_q = quantile(a, quantile_probability = p), got_m = non_coherent_weighted_tail_mean(a, quantile_probability = p);
    if (r <= 10)
    {
        double t = 0, w = 0; for (int i = 0; i < r; ++i) { t += ws[id[i]] * s[i]; w += ws[id[i]]; }
        vf_eq(got_q, s[r - 1], "quantile"); vf_eq(got_m, t / w, "mean");
    }
    else { vf_assert(got_q != got_q, "quantile_nan"); vf_assert(got_m != got_m, "mean_nan"); }
    vf_cover("end");
}
// @bound h_big_left cache 35, 110 reals with weights and variates, one sample (among the extreme ones) and one weight arbitrary, four probabilities
template<typename LR> NOINLINE void big()
{
    int const N = 110, C = 35;
    typedef std::vector<double> V;
    accumulator_set<double, stats<tag::weighted_tail_quantile<LR>, tag::non_coherent_weighted_tail_mean<LR>,
        tag::absolute_weighted_tail_variate_means<LR, V, tag::covariate1> >, double> a(CACHE(C));
    double xs[N], ws[N], s[N]; int id[N];
    for (int i = 0; i < N; ++i)
    {
        xs[i] = i == 90 ? vf_real() : (double)((i * 17) % 111) - 60; ws[i] = 1 + (i * 5) % 7;
        if (i == 95) { ws[i] = vf_real(); vf_assume(ws[i] > 0); }
        a(xs[i], weight = ws[i], covariate1 = V(1, i + 1.));
    }
    vf_assume(side<LR>::more(xs[90], boost::is_same<LR, left>::value ? -40. : 30.));
    for (int i = 0; i < N; ++i) if (i != 90) vf_assume(xs[90] != xs[i]);
    double const ps[4] = { 0.01, 0.1, 0.22, 0.5 };
    double lv = ps[vf_choice(4)], p = boost::is_same<LR, left>::value ? lv : 1 - lv;
    if (!boost::is_same<LR, left>::value) lv = 1 - p;
    order<LR>(xs, N, s, id);
    int r = reach(ws, id, C, N, lv);
    double got_q = quantile(a, quantile_probability = p), got_m = non_coherent_weighted_tail_mean(a, quantile_probability = p);
    if (r <= C)
    {
        double t = 0, w = 0, v = 0; for (int i = 0; i < r; ++i) { t += ws[id[i]] * s[i]; w += ws[id[i]]; v += ws[id[i]] * (id[i] + 1); }
        vf_eq(got_q, s[r - 1], "quantile"); vf_eq(got_m, t / w, "mean");
        vf_eq(*weighted_tail_variate_means(a, quantile_probability = p).begin(), v / w, "variate_means");
    }
    else { vf_assert(got_q != got_q, "quantile_nan"); vf_assert(got_m != got_m, "mean_nan"); }
    vf_cover("end");
}
HARNESS(h_big_left) { big<left>(); }
// @bound h_big_right cache 35, 110 reals with weights and variates, one sample (among the extreme ones) and one weight arbitrary, four probabilities
HARNESS(h_big_right) { big<right>(); }
