#include "C07.h"
typedef int T; typedef std::valarray<T> V;
// @bound h_unweighted std::valarray<int> samples of dimension 1..3, up to 3 (thorough 4) samples: count, sum, mean, min, max against one scalar set per component
HARNESS(h_unweighted)
{
    typedef stats<tag::count, tag::sum, tag::mean, tag::min, tag::max> F;
    int d = 1 + vf_choice(DMAX), n = 1 + vf_choice(N); V z = maker<V>::zeros(d);
    accumulator_set<V, F> a(sample = z); accumulator_set<T, F> c[DMAX];
    for (int i = 0; i < n; ++i) { V x = z; for (int k = 0; k < d; ++k) { x[k] = drawn<T>(); c[k](x[k]); } a(x); }
    vf_assert(count(a) == (std::size_t)n, "count");
    auto s = sum(a); auto m = mean(a); auto lo = (min)(a); auto hi = (max)(a);
    size_is(s, d); size_is(m, d); size_is(lo, d); size_is(hi, d);
    for (int k = 0; k < d; ++k)
    { vf_eq(s[k], sum(c[k]), "sum"); vf_eq(m[k], mean(c[k]), "mean"); vf_eq(lo[k], (min)(c[k]), "min"); vf_eq(hi[k], (max)(c[k]), "max"); }
    vf_cover("end");
}
// @bound h_moments the same for second and third moment, lazy variance, immediate mean
HARNESS(h_moments)
{
    typedef stats<tag::moment<2>, tag::moment<3>, tag::lazy_variance> F; typedef stats<tag::immediate_mean> G;
    int d = 1 + vf_choice(2), n = 1 + vf_choice(N); V z = maker<V>::zeros(d);
    accumulator_set<V, F> a(sample = z); accumulator_set<T, F> c[DMAX]; accumulator_set<V, G> b(sample = z); accumulator_set<T, G> e[DMAX];
    for (int i = 0; i < n; ++i) { V x = z; for (int k = 0; k < d; ++k) { x[k] = drawn<T>(); c[k](x[k]); e[k](x[k]); } a(x); b(x); }
    auto m2 = boost::accumulators::moment<2>(a); auto m3 = boost::accumulators::moment<3>(a); auto lv = lazy_variance(a); auto im = mean(b);
    size_is(m2, d); size_is(m3, d); size_is(lv, d); size_is(im, d);
    for (int k = 0; k < d; ++k)
    {
        vf_eq(m2[k], boost::accumulators::moment<2>(c[k]), "moment2"); vf_eq(m3[k], boost::accumulators::moment<3>(c[k]), "moment3"); vf_eq(lv[k], lazy_variance(c[k]), "lazy_variance");
        vf_eq(im[k], mean(e[k]), "immediate_mean");
    }
    vf_cover("end");
}
template<typename W> NOINLINE void weighted_case()
{
    typedef stats<tag::weighted_sum, tag::weighted_mean, tag::weighted_moment<2>, tag::lazy_weighted_variance> F; typedef stats<tag::immediate_weighted_mean> G;
    int d = 1 + vf_choice(2), n = 1 + vf_choice(N); V z = maker<V>::zeros(d);
    accumulator_set<V, F, W> a(sample = z); accumulator_set<T, F, W> c[DMAX]; accumulator_set<V, G, W> b(sample = z); accumulator_set<T, G, W> e[DMAX];
    W tot = 0;
    for (int i = 0; i < n; ++i)
    {
        W w = drawn_weight<W>(); tot += w; V x = z;
        for (int k = 0; k < d; ++k) { x[k] = drawn<T>(); c[k](x[k], weight = w); e[k](x[k], weight = w); }
        a(x, weight = w); b(x, weight = w);
    }
    vf_eq(sum_of_weights(a), tot, "sum_of_weights");
    auto s = weighted_sum(a); auto m = weighted_mean(a); auto m2 = weighted_moment<2>(a); auto lv = lazy_weighted_variance(a); auto im = weighted_mean(b);
    size_is(s, d); size_is(m, d); size_is(m2, d); size_is(lv, d); size_is(im, d);
    for (int k = 0; k < d; ++k)
    {
        vf_eq(s[k], weighted_sum(c[k]), "weighted_sum"); vf_eq(m[k], weighted_mean(c[k]), "weighted_mean"); vf_eq(m2[k], weighted_moment<2>(c[k]), "weighted_moment");
        vf_eq(lv[k], lazy_weighted_variance(c[k]), "lazy_weighted_variance"); vf_eq(im[k], weighted_mean(e[k]), "immediate_weighted_mean");
    }
    vf_cover("end");
}
// @bound h_weighted_int weighted sum, mean, second moment, lazy variance, int weights, dimension 1..2, up to 3 (4) samples
HARNESS(h_weighted_int) { weighted_case<int>(); }
// @bound h_big dimension 4 to 17, 20 or 33, 7 samples, two components of one sample arbitrary, the others concrete: count, sum, mean, min, max, moments, lazy variance against one scalar set per component
HARNESS(h_big)
{
    typedef stats<tag::count, tag::sum, tag::mean, tag::min, tag::max, tag::moment<2>, tag::lazy_variance> F; typedef stats<tag::immediate_mean> G;
    enum { DM = 33, M = 7 }; int D = 4 + vf_choice(16); if (D == 18) D = 20; if (D == 19) D = 33; V z = maker<V>::zeros(D);
    accumulator_set<V, F> a(sample = V(z)); accumulator_set<T, F> c[DM]; accumulator_set<V, G> b(sample = V(z)); accumulator_set<T, G> e[DM];
    for (int i = 0; i < M; ++i)
    {
        V x = z;
        for (int k = 0; k < D; ++k) { x[k] = i == 6 && (k == D / 2 || k == D - 1) ? drawn<T>() : T((i * 7 + k * 5) % 23 - 9); c[k](x[k]); e[k](x[k]); }
        a(x); b(x);
    }
    vf_assert(count(a) == (std::size_t)M, "count");
    auto s = sum(a); auto m = mean(a); auto lo = (min)(a); auto hi = (max)(a); auto m2 = boost::accumulators::moment<2>(a); auto lv = lazy_variance(a); auto im = mean(b);
    size_is(s, D); size_is(m, D); size_is(lo, D); size_is(hi, D); size_is(m2, D); size_is(lv, D); size_is(im, D);
    for (int k = 0; k < D; ++k)
    {
        vf_eq(s[k], sum(c[k]), "sum"); vf_eq(m[k], mean(c[k]), "mean"); vf_eq(lo[k], (min)(c[k]), "min"); vf_eq(hi[k], (max)(c[k]), "max");
        vf_eq(m2[k], boost::accumulators::moment<2>(c[k]), "moment2"); vf_eq(lv[k], lazy_variance(c[k]), "lazy_variance"); vf_eq(im[k], mean(e[k]), "immediate_mean");
    }
    vf_cover("end");
}
