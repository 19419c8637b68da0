#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include "common.h"
#include "fresh.h"
#include "store.h"
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/tail_mean.hpp>
#include <boost/accumulators/statistics/tail_variate_means.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <stdexcept>
using namespace boost::accumulators;
#define CACHE(c) tag::tail<LR>::cache_size = (c)

template<typename LR> struct side;
template<> struct side<left> { template<typename T> static bool more(T a, T b) { return a < b; } static double level(double p) { return p; } };
template<> struct side<right> { template<typename T> static bool more(T a, T b) { return b < a; } static double level(double p) { return 1 - p; } };

// s = xs sorted, most extreme first; id[] the arrival numbers
template<typename LR, typename T> NOINLINE void order(T const *xs, int n, T *s, int *id)
{
    for (int i = 0; i < n; ++i)
    {
        int j = i;
        while (j > 0 && side<LR>::more(xs[i], s[j - 1])) { s[j] = s[j - 1]; id[j] = id[j - 1]; --j; }
        s[j] = xs[i]; id[j] = i;
    }
}
// smallest integer not below n*level
NOINLINE int rank_of(double nl, int n) { int r = 1; while (r < n && (double)r < nl) ++r; return r; }

template<typename LR> NOINLINE void stat(int Cmax, int N)
{
    int C = 1 + vf_choice(Cmax), n = 1 + vf_choice(N);
    accumulator_set<double, stats<tag::tail_quantile<LR> > > q(CACHE(C));
    accumulator_set<double, stats<tag::non_coherent_tail_mean<LR> > > m(CACHE(C));
    accumulator_set<double, stats<tag::coherent_tail_mean<LR>, tag::tail_quantile<LR> > > c(CACHE(C));
    double xs[8], s[8]; int id[8];
    for (int i = 0; i < n; ++i) { xs[i] = vf_real(); if (i) vf_assume(xs[i] != xs[i - 1]); q(xs[i]); m(xs[i]); c(xs[i]); }
    double p = vf_real(); vf_assume(p > 0 && p < 1);
    double lv = side<LR>::level(p);
    order<LR>(xs, n, s, id);
    int r = rank_of(n * lv, n), k = n < C ? n : C;
    double got_q = quantile(q, quantile_probability = p), got_m = non_coherent_tail_mean(m, quantile_probability = p),
           got_c = tail_mean(c, quantile_probability = p);
    if (r <= k)
    {
        double t = 0; for (int i = 0; i < r; ++i) t += s[i];
        vf_eq(got_q, s[r - 1], "quantile");
        vf_eq(got_m, t / r, "non_coherent");
        vf_eq(got_c, t / r + s[r - 1] / r * (lv - (double)r / n), "coherent");
        vf_eq(quantile(c, quantile_probability = p), s[r - 1], "quantile2");
    }
    else
    {
        vf_assert(got_q != got_q, "quantile_nan"); vf_assert(got_m != got_m, "non_coherent_nan"); vf_assert(got_c != got_c, "coherent_nan");
    }
    vf_cover("end");
}
// @bound h_left cache 1..4, 1..4 reals in any order, any probability in (0,1)
HARNESS(h_left) { stat<left>(4, 4); }
// @bound h_right cache 1..4, 1..4 reals in any order, any probability in (0,1)
HARNESS(h_right) { stat<right>(4, 4); }

// more samples, given in increasing or decreasing order
template<typename LR> NOINLINE void sorted(int N)
{
    int C = 1 + vf_choice(N), n = N; bool up = vf_choice(2);
    accumulator_set<double, stats<tag::tail_quantile<LR>, tag::coherent_tail_mean<LR> > > c(CACHE(C));
    double xs[16], x = vf_real();
    for (int i = 0; i < n; ++i) { double d = vf_real(); vf_assume(d > 0); x = up ? x + d : x - d; xs[i] = x; c(x); }
    double p = vf_real(); vf_assume(p > 0 && p < 1);
    double lv = side<LR>::level(p), s[16]; int id[16];
    order<LR>(xs, n, s, id);
    int r = rank_of(n * lv, n);
    double got_q = quantile(c, quantile_probability = p), got_m = non_coherent_tail_mean(c, quantile_probability = p), got_c = tail_mean(c, quantile_probability = p);
    if (r <= C)
    {
        double t = 0; for (int i = 0; i < r; ++i) t += s[i];
        vf_eq(got_q, s[r - 1], "quantile"); vf_eq(got_m, t / r, "non_coherent");
        vf_eq(got_c, t / r + s[r - 1] / r * (lv - (double)r / n), "coherent");
    }
    else { vf_assert(got_q != got_q, "quantile_nan"); vf_assert(got_m != got_m, "non_coherent_nan"); vf_assert(got_c != got_c, "coherent_nan"); }
    vf_cover("end");
}
// @bound h_sorted_left cache 1..7, 7 reals in increasing or decreasing order, any probability in (0,1)
HARNESS(h_sorted_left) { sorted<left>(VF_T(7, 11)); }
// @bound h_sorted_right cache 1..7, 7 reals in increasing or decreasing order, any probability in (0,1)
HARNESS(h_sorted_right) { sorted<right>(VF_T(7, 11)); }

// variates
typedef std::vector<double> V;
template<typename LR> NOINLINE void variates(int Cmax, int N)
{
    typedef tag::covariate1 K;
    int C = 1 + vf_choice(Cmax), n = 1 + vf_choice(N), d = 1 + vf_choice(2);
    accumulator_set<double, stats<tag::absolute_tail_variate_means<LR, V, K> > > a(CACHE(C));
    accumulator_set<double, stats<tag::relative_tail_variate_means<LR, V, K> > > b(CACHE(C));
    double xs[8], s[8]; V vs[8]; int id[8];
    for (int i = 0; i < n; ++i)
    {
        xs[i] = vf_real(); vs[i].resize(d);
        for (int j = 0; j < i; ++j) vf_assume(xs[i] != xs[j]);
        for (int j = 0; j < d; ++j) vs[i][j] = vf_real();
        a(xs[i], covariate1 = vs[i]); b(xs[i], covariate1 = vs[i]);
    }
    double p = vf_real(); vf_assume(p > 0 && p < 1);
    order<LR>(xs, n, s, id);
    int r = rank_of(n * side<LR>::level(p), n), k = n < C ? n : C;
    double t = 0; for (int i = 0; i < r; ++i) t += s[i];
    vf_assume(t != 0);
    auto ra = tail_variate_means(a, quantile_probability = p);
    auto rb = relative_tail_variate_means(b, quantile_probability = p);
    vf_assert((int)ra.size() == d && (int)rb.size() == d, "size");
    auto ia = ra.begin(); auto ib = rb.begin();
    for (int j = 0; j < d; ++j, ++ia, ++ib)
    {
        if (r <= k)
        {
            double v = 0; for (int i = 0; i < r; ++i) v += vs[id[i]][j];
            vf_eq(*ia, v / r, "absolute"); vf_eq(*ib, v / t, "relative");
        }
        else { vf_assert(*ia != *ia, "absolute_nan"); vf_assert(*ib != *ib, "relative_nan"); }
    }
    vf_cover("end");
}
// @bound h_variates_left cache 1..3, 1..3 distinct reals with vector variates of dimension 1..2, any probability in (0,1)
HARNESS(h_variates_left) { variates<left>(3, 3); }
// @bound h_variates_right cache 1..3, 1..3 distinct reals with vector variates of dimension 1..2, any probability in (0,1)
HARNESS(h_variates_right) { variates<right>(3, 3); }

// integer samples have no NaN: an exception reports the missing cache
template<typename LR> NOINLINE void ints()
{
    int C = 1 + vf_choice(3), n = 1 + vf_choice(3);
    accumulator_set<int, stats<tag::tail_quantile<LR>, tag::non_coherent_tail_mean<LR> > > q(CACHE(C));
    int xs[8], s[8], id[8];
    for (int i = 0; i < n; ++i) { xs[i] = fresh<int>(); q(xs[i]); }
    double p = vf_real(); vf_assume(p > 0 && p < 1);
    order<LR>(xs, n, s, id);
    int r = rank_of(n * side<LR>::level(p), n), k = n < C ? n : C;
    double m = non_coherent_tail_mean(q, quantile_probability = p);
    bool threw = false; int got = 0;
    try { got = quantile(q, quantile_probability = p); } catch (std::runtime_error const &) { threw = true; }
    if (r <= k)
    {
        double t = 0; for (int i = 0; i < r; ++i) t += s[i];
        vf_assert(!threw && got == s[r - 1], "quantile"); vf_eq(m, t / r, "mean");
    }
    else { vf_assert(threw, "quantile_throws"); vf_assert(m != m, "mean_nan"); }
    vf_cover("end");
}
// @bound h_int_left cache 1..3, 1..3 ints, any probability in (0,1)
HARNESS(h_int_left) { ints<left>(); }
// @bound h_int_right cache 1..3, 1..3 ints, any probability in (0,1)
HARNESS(h_int_right) { ints<right>(); }

// before any sample there is nothing to report
// @bound h_empty no sample
HARNESS(h_empty)
{
    accumulator_set<double, stats<tag::tail_quantile<left>, tag::non_coherent_tail_mean<left> > > q(tag::tail<left>::cache_size = 3);
    double x = quantile(q, quantile_probability = 0.5), m = non_coherent_tail_mean(q, quantile_probability = 0.5);
    vf_assert(x != x, "quantile"); vf_assert(m != m, "mean");
    vf_cover("end");
}
// long history
// @bound h_long cache 12, 60 reals, 1 arbitrary, five probabilities
HARNESS(h_long)
{
    typedef left LR;
    accumulator_set<double, stats<tag::tail_quantile<LR>, tag::coherent_tail_mean<LR> > > a(CACHE(12));
    double xs[60], s[60]; int id[60];
    for (int i = 0; i < 60; ++i) { xs[i] = i == 17 ? vf_real() : (double)((i * 17) % 61) - 20; a(xs[i]); }
    double const ps[5] = { 0.01, 0.05, 0.125, 0.19, 0.25 };
    double p = ps[vf_choice(5)];
    order<LR>(xs, 60, s, id);
    int r = rank_of(60 * p, 60);
    double got = quantile(a, quantile_probability = p), c = tail_mean(a, quantile_probability = p);
    if (r <= 12)
    {
        double t = 0; for (int i = 0; i < r; ++i) t += s[i];
        vf_eq(got, s[r - 1], "quantile"); vf_eq(c, t / r + s[r - 1] / r * (p - (double)r / 60), "coherent");
    }
    else { vf_assert(got != got, "quantile_nan"); vf_assert(c != c, "coherent_nan"); }
    vf_cover("end");
}
// @bound h_big cache 45, 350 reals with variates, 1 arbitrary among the extreme ones, five probabilities, both tails
template<typename LR> NOINLINE void big()
{
    int const N = 350, C = 45;
    typedef std::vector<double> V;
    accumulator_set<double, stats<tag::tail_quantile<LR>, tag::coherent_tail_mean<LR>, tag::absolute_tail_variate_means<LR, V, tag::covariate1> > > a(CACHE(C));
    accumulator_set<double, stats<tag::relative_tail_variate_means<LR, V, tag::covariate1> > > b(CACHE(C));
    double xs[N], s[N]; int id[N];
    for (int i = 0; i < N; ++i) { xs[i] = i == 117 ? vf_real() : (double)((i * 17) % 351) - 100; a(xs[i], covariate1 = V(1, i + 1.)); b(xs[i], covariate1 = V(1, i + 1.)); }
    vf_assume(side<LR>::more(xs[117], boost::is_same<LR, left>::value ? -65. : 215.));
    for (int i = 0; i < N; ++i) if (i != 117) vf_assume(xs[117] != xs[i]);
    double const ps[5] = { 0.002, 0.05, 0.1, 0.128, 0.25 };
    double lv = ps[vf_choice(5)], p = side<LR>::level(lv); lv = side<LR>::level(p);
    order<LR>(xs, N, s, id);
    int r = rank_of(N * lv, N);
    double got = quantile(a, quantile_probability = p), c = tail_mean(a, quantile_probability = p);
    if (r <= C)
    {
        double t = 0, v = 0; for (int i = 0; i < r; ++i) { t += s[i]; v += id[i] + 1; }
        vf_eq(got, s[r - 1], "quantile"); vf_eq(c, t / r + s[r - 1] / r * (lv - (double)r / N), "coherent");
        vf_eq(*tail_variate_means(a, quantile_probability = p).begin(), v / r, "variate_means");
        vf_assume(t != 0); vf_eq(*relative_tail_variate_means(b, quantile_probability = p).begin(), v / t, "relative");
    }
    else { vf_assert(got != got, "quantile_nan"); vf_assert(c != c, "coherent_nan"); }
    vf_cover("end");
}
// @bound h_big_left cache 45, 350 reals with variates, 1 arbitrary among the extreme ones, five probabilities
HARNESS(h_big_left) { big<left>(); }
// @bound h_big_right cache 45, 350 reals with variates, 1 arbitrary among the extreme ones, five probabilities
HARNESS(h_big_right) { big<right>(); }

// after very many samples: the count is replaced by a large one, the samples not kept being less extreme
template<typename LR> NOINLINE void many()
{
    static double const ns[4] = { 100, 65537, 16777217, 8589934593.0 };
    accumulator_set<double, stats<tag::tail_quantile<LR>, tag::coherent_tail_mean<LR> > > c(CACHE(4));
    double xs[9], x = vf_real(), n = ns[vf_choice(4)]; bool up = vf_choice(2);
    for (int i = 0; i < 9; ++i) { double d = vf_real(); vf_assume(d > 0); x = up ? x + d : x - d; xs[i] = x; c(x); }
    store st; { oarchive o(st); c.serialize(o, 0); }
    st.z[seekz(st, 9)] = (long)n; put(c, st);
    double p = vf_real(); vf_assume(p > 0 && p < 1);
    double lv = side<LR>::level(p), s[16]; int id[16];
    order<LR>(xs, 9, s, id);
    int r = rank_of(n * lv, 5);
    double got_q = quantile(c, quantile_probability = p), got_m = non_coherent_tail_mean(c, quantile_probability = p), got_c = tail_mean(c, quantile_probability = p);
    if (r <= 4)
    {
        double t = 0; for (int i = 0; i < r; ++i) t += s[i];
        vf_eq(got_q, s[r - 1], "quantile"); vf_eq(got_m, t / r, "non_coherent");
        vf_eq(got_c, t / r + s[r - 1] / r * (lv - (double)r / n), "coherent");
    }
    else { vf_assert(got_q != got_q, "quantile_nan"); vf_assert(got_m != got_m, "non_coherent_nan"); vf_assert(got_c != got_c, "coherent_nan"); }
    vf_cover("end");
}
// @bound h_many_left cache 4, the 4 most extreme samples arbitrary, 100, 2^16+1, 2^24+1 or 2^33+1 samples in all, any probability in (0,1)
HARNESS(h_many_left) { many<left>(); }
// @bound h_many_right cache 4, the 4 most extreme samples arbitrary, 100, 2^16+1, 2^24+1 or 2^33+1 samples in all, any probability in (0,1)
HARNESS(h_many_right) { many<right>(); }

// int samples: the coherent mean and the means of real variates
template<typename LR> NOINLINE void int_means()
{
    typedef tag::covariate1 K;
    int C = 1 + vf_choice(3), n = 1 + vf_choice(3);
    accumulator_set<int, stats<tag::absolute_tail_variate_means<LR, V, K> > > a(CACHE(C));
    accumulator_set<int, stats<tag::relative_tail_variate_means<LR, V, K> > > b(CACHE(C));
    int xs[8], s[8], id[8]; V vs[8];
    for (int i = 0; i < n; ++i)
    {
        xs[i] = fresh<int>(); vs[i].resize(1); vs[i][0] = vf_real();
        for (int j = 0; j < i; ++j) vf_assume(xs[i] != xs[j]);
        a(xs[i], covariate1 = vs[i]); b(xs[i], covariate1 = vs[i]);
    }
    double p = vf_choice(2) ? 0.375 : 0.75;
    order<LR>(xs, n, s, id);
    int r = rank_of(n * side<LR>::level(p), n), k = n < C ? n : C, t = 0; for (int i = 0; i < r; ++i) t += s[i];
    vf_assume(t != 0);
    auto ra = tail_variate_means(a, quantile_probability = p); auto rb = relative_tail_variate_means(b, quantile_probability = p);
    if (r <= k)
    {
        double v = 0; for (int i = 0; i < r; ++i) v += vs[id[i]][0];
        vf_eq(*ra.begin(), v / r, "absolute"); vf_eq(*rb.begin(), v / t, "relative");
    }
    else { vf_assert(*ra.begin() != *ra.begin(), "absolute_nan"); vf_assert(*rb.begin() != *rb.begin(), "relative_nan"); }
    vf_cover("end");
}
// @bound h_int_means cache 1..3, 1..3 distinct ints with a real variate, two probabilities, both tails
HARNESS(h_int_means) { if (vf_choice(2)) int_means<left>(); else int_means<right>(); }
