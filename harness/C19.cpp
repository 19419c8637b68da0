#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;

template<typename LR> struct side;
template<> struct side<left>
{
    template<typename T> static bool more(T a, T b) { return a < b; }
};
template<> struct side<right>
{
    template<typename T> static bool more(T a, T b) { return b < a; }
};
#define CACHE(c) tag::tail<LR>::cache_size = (c)

// the tail of a must be exactly the k most extreme of xs[0..n), most extreme first
template<typename LR, typename A, typename T> NOINLINE void tail_is(A const &a, T const *xs, int n, int C)
{
    T s[12];
    for (int i = 0; i < n; ++i)
    {
        int j = i;
        while (j > 0 && side<LR>::more(xs[i], s[j - 1])) { s[j] = s[j - 1]; --j; }
        s[j] = xs[i];
    }
    int k = n < C ? n : C, seen = 0;
    auto r = tail(a);
    vf_assert((int)r.size() == k, "size");
    for (auto it = r.begin(); it != r.end() && seen < k; ++it, ++seen) vf_eq((double)*it, (double)s[seen], "element");
    vf_assert(seen == k, "length");
}
template<typename T, typename LR> NOINLINE void plain(int Cmax, int N, bool every)
{
    int C = 1 + vf_choice(Cmax);
    accumulator_set<T, stats<tag::tail<LR> > > a(CACHE(C));
    T xs[12];
    vf_assert(tail(a).size() == 0, "empty");
    for (int i = 0; i < N; ++i)
    {
        xs[i] = fresh<T>(); a(xs[i]);
        if (every || i + 1 == N) tail_is<LR>(a, xs, i + 1, C);
    }
    if (every) tail_is<LR>(a, xs, N, C);
    vf_cover("end");
}
// @bound h_left cache 1..4 (thorough 5), 5 (thorough 6) reals in any order, ties included, extraction at the end
HARNESS(h_left) { plain<double, left>(VF_T(4, 5), VF_T(5, 6), false); }
// @bound h_right cache 1..4 (thorough 5), 5 (thorough 6) reals, extraction at the end
HARNESS(h_right) { plain<double, right>(VF_T(4, 5), VF_T(5, 6), false); }
// @bound h_left_every cache 1..4, 5 (thorough 6) reals, extraction after every sample
HARNESS(h_left_every) { plain<double, left>(4, VF_T(5, 6), true); }
// @bound h_right_every cache 1..4, 5 (thorough 6) reals, extraction after every sample
HARNESS(h_right_every) { plain<double, right>(4, VF_T(5, 6), true); }
// @bound h_int cache 1..3, 4 ints
HARNESS(h_int) { plain<int, right>(3, 4, true); }
// @bound h_unsigned cache 1..3, 4 unsigned
HARNESS(h_unsigned) { plain<unsigned, left>(3, 4, false); }
// @bound h_partial cache 7, 1..5 reals (never full)
HARNESS(h_partial)
{
    typedef right LR;
    accumulator_set<double, stats<tag::tail<LR> > > a(CACHE(7));
    int n = 1 + vf_choice(5); double xs[6];
    for (int i = 0; i < n; ++i) { xs[i] = vf_real(); a(xs[i]); }
    tail_is<LR>(a, xs, n, 7);
    vf_cover("end");
}

// variates and weights identify the samples they came with
template<typename LR, typename A> NOINLINE void companions_are(A const &a, double const *xs, int n, int C, double const *vs, double const *ws)
{
    int k = n < C ? n : C;
    auto t = tail(a); auto v = tail_variate(a); auto w = tail_weights(a);
    vf_assert((int)t.size() == k && (int)v.size() == k && (int)w.size() == k, "sizes");
    bool used[8] = {0};
    auto ti = t.begin(); auto vi = v.begin(); auto wi = w.begin();
    double last = 0;
    for (int j = 0; j < k; ++j, ++ti, ++vi, ++wi)
    {
        int id = (int)*vi;                       // the variate carries the arrival number
        vf_assert(id >= 0 && id < n && !used[id], "variate_distinct");
        used[id] = true;
        vf_eq(*ti, xs[id], "variate_matches"); vf_eq(*wi, ws[id], "weight_matches");
        if (j) vf_assert(!side<LR>::more((double)*ti, last), "order");
        last = *ti;
    }
    for (int i = 0; i < n; ++i) if (!used[i]) vf_assert(!side<LR>::more(xs[i], last), "extreme");
}
template<typename LR> NOINLINE void companions(int Cmax, int N, bool every)
{
    int C = 1 + vf_choice(Cmax);
    accumulator_set<double, stats<tag::tail_weights<LR>, tag::tail_variate<int, tag::covariate1, LR>, tag::count>, double> a(CACHE(C));
    double xs[8], ws[8];
    for (int i = 0; i < N; ++i)
    {
        xs[i] = vf_real(); ws[i] = vf_real();
        a(xs[i], weight = ws[i], covariate1 = i);
        if (every || i + 1 == N) companions_are<LR>(a, xs, i + 1, C, 0, ws);
    }
    vf_cover("end");
}
// @bound h_comp_left cache 1..3, 5 weighted reals with a variate, extraction at the end
HARNESS(h_comp_left) { companions<left>(3, 5, false); }
// @bound h_comp_right cache 1..3, 5 weighted reals with a variate, extraction at the end
HARNESS(h_comp_right) { companions<right>(3, 5, false); }
// @bound h_comp_left_every cache 1..3, 4 (thorough 5) weighted reals with a variate, extraction after every sample
HARNESS(h_comp_left_every) { companions<left>(3, VF_T(4, 5), true); }
// @bound h_comp_right_every cache 1..3, 4 (thorough 5) weighted reals with a variate, extraction after every sample
HARNESS(h_comp_right_every) { companions<right>(3, VF_T(4, 5), true); }

// copies made in the middle
// @bound h_copy cache 1..3, 1..2 reals, copy and assignment (extracted or not), 2 more reals each
HARNESS(h_copy)
{
    typedef right LR;
    int C = 1 + vf_choice(3), n = 1 + vf_choice(2); bool ext = vf_choice(2);
    typedef accumulator_set<double, stats<tag::tail<LR>, tag::tail_variate<int, tag::covariate1, LR> > > A;
    A a(CACHE(C)), o(CACHE(1));
    double xs[8], ys[8];
    for (int i = 0; i < n; ++i) { xs[i] = ys[i] = vf_real(); a(xs[i], covariate1 = i); }
    o(0.0, covariate1 = 9);
    if (ext) tail_is<LR>(a, xs, n, C);
    A b(a); o = a;
    for (int i = n; i < n + 2; ++i) { xs[i] = vf_real(); ys[i] = -(double)i; a(xs[i], covariate1 = i); b(ys[i], covariate1 = i); }
    tail_is<LR>(o, xs, n, C); tail_is<LR>(b, ys, n + 2, C); tail_is<LR>(a, xs, n + 2, C);
    auto t = tail(b); auto v = tail_variate(b); auto vi = v.begin();
    for (auto ti = t.begin(); ti != t.end(); ++ti, ++vi) vf_eq(*ti, ys[*vi], "variate_copy");
    vf_cover("end");
}
// long history: a few arbitrary samples among many fixed ones
template<typename LR, int C, int N, int A, int B> NOINLINE void longh()
{
    accumulator_set<double, stats<tag::tail_variate<int, tag::covariate1, LR> > > a(CACHE(C));
    double xs[N];
    for (int i = 0; i < N; ++i) { xs[i] = (i == A || i == B) ? vf_real() : (double)((i * 17) % (N + 1)) - N / 2; a(xs[i], covariate1 = i); if (i == N / 2) (void)tail(a).size(); }
    auto t = tail(a); auto v = tail_variate(a);
    int const K = C < N ? C : N;
    vf_assert((int)t.size() == K && (int)v.size() == K, "size");
    bool used[N] = {0}; auto vi = v.begin(); double last = 0; int j = 0;
    for (auto ti = t.begin(); ti != t.end(); ++ti, ++vi, ++j)
    {
        int id = *vi; vf_assert(id >= 0 && id < N && !used[id], "variate_distinct"); used[id] = true;
        vf_eq(*ti, xs[id], "variate_matches");
        if (j) vf_assert(!side<LR>::more((double)*ti, last), "order");
        last = *ti;
    }
    for (int i = 0; i < N; ++i) if (!used[i]) vf_assert(!side<LR>::more(xs[i], last), "extreme");
    vf_cover("end");
}
// @bound h_long_left cache 9, 40 reals, 2 arbitrary
HARNESS(h_long_left) { longh<left, 9, 40, 3, 30>(); }
// @bound h_long_right cache 9, 40 reals, 2 arbitrary
HARNESS(h_long_right) { longh<right, 9, 40, 3, 30>(); }
// @bound h_big_left cache 70, 230 reals, 1 arbitrary
HARNESS(h_big_left) { longh<left, 70, 230, 40, -1>(); }
// @bound h_big_right cache 70, 230 reals, 1 arbitrary
HARNESS(h_big_right) { longh<right, 70, 230, 140, -1>(); }
// @bound h_big_partial cache 130, 120 reals (never full), 1 arbitrary
HARNESS(h_big_partial) { longh<right, 130, 120, 60, -1>(); }
// both tails in one set, with variates that own memory
typedef std::vector<double> V19;
template<typename LR, typename A> NOINLINE void variates_are(A const &a, double const *x, double const (*v)[2], int n, int C)
{
    typedef tag::tail_variate<V19, tag::covariate1, LR> TV;
    auto t = extract_result<tag::tail<LR> >(a); auto r = extract_result<TV>(a);
    int k = n < C ? n : C; vf_assert((int)r.size() == k && (int)t.size() == k, "size");
    auto ti = t.begin(); auto ri = r.begin();
    for (int i = 0; i < k && ri != r.end(); ++i, ++ti, ++ri)
    {
        bool found = false;                     // the variate that came with the sample, found by its first component
        for (int j = 0; j < n; ++j) if ((*ri).size() == 2 && (*ri)[0] == v[j][0] && *ti == x[j]) { found = true; vf_eq((*ri)[1], v[j][1], "variate"); }
        vf_assert(found, "variate_of_its_sample");
    }
}
// @bound h_both_sides left and right tail with vector variates given as temporaries or as variables, caches of 2, 4 reals in any order
HARNESS(h_both_sides)
{
    typedef tag::tail_variate<V19, tag::covariate1, left> L; typedef tag::tail_variate<V19, tag::covariate1, right> R;
    accumulator_set<double, stats<L, R> > a(tag::tail<left>::cache_size = 2, tag::tail<right>::cache_size = 2);
    bool temp = vf_choice(2) != 0; double x[4], v[4][2];
    for (int i = 0; i < 4; ++i)
    {
        x[i] = fresh<double>(); v[i][0] = i + 1; v[i][1] = fresh<double>();
        if (temp) a(x[i], covariate1 = V19(v[i], v[i] + 2)); else { V19 w(v[i], v[i] + 2); a(x[i], covariate1 = w); vf_assert(w.size() == 2, "untouched"); }
    }
    variates_are<left>(a, x, v, 4, 2); variates_are<right>(a, x, v, 4, 2);
    vf_cover("end");
}

// samples, weights and variates of different types
template<typename T, typename W, typename V, typename LR> NOINLINE void mixed_tail()
{
    int C = 1 + vf_choice(2); int const N = 3;
    accumulator_set<T, stats<tag::tail_weights<LR>, tag::tail_variate<V, tag::covariate1, LR>, tag::tail<LR> >, W> a(CACHE(C));
    double xs[4], ws[4], vs[4];
    for (int i = 0; i < N; ++i)
    {
        T x = fresh<T>(); W w = fresh<W>(); V v = fresh<V>(); xs[i] = (double)x; ws[i] = (double)w; vs[i] = (double)v;
        for (int j = 0; j < i; ++j) vf_assume(xs[j] != xs[i]);
        a(x, weight = w, covariate1 = v);
    }
    auto t = tail(a); auto v = tail_variate(a); auto w = tail_weights(a);
    auto ti = t.begin(); auto vi = v.begin(); auto wi = w.begin();
    for (int j = 0; j < C; ++j, ++ti, ++vi, ++wi)
    {
        int id = 0; for (int i = 0; i < N; ++i) { int before = 0; for (int k = 0; k < N; ++k) before += side<LR>::more(xs[k], xs[i]); if (before == j) id = i; }
        vf_eq(*ti, xs[id], "tail"); vf_eq(*vi, vs[id], "variate"); vf_eq(*wi, ws[id], "weight");
    }
    vf_cover("end");
}
// @bound h_mixed_types cache 1..2, 3 distinct samples with weight and variate: int/real/real left, real/int/real right, real/real/int left
HARNESS(h_mixed_types)
{
    switch (vf_choice(3)) { case 0: mixed_tail<int, double, double, left>(); break; case 1: mixed_tail<double, int, double, right>(); break; default: mixed_tail<double, double, int, left>(); }
}
