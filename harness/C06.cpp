#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/sum_kahan.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/skewness.hpp>
#include <boost/accumulators/statistics/kurtosis.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/covariance.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/weighted_skewness.hpp>
#include <boost/accumulators/statistics/weighted_kurtosis.hpp>
#include <boost/accumulators/statistics/weighted_covariance.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/weighted_tail_quantile.hpp>
using namespace boost::accumulators;
BOOST_PARAMETER_KEYWORD(mine, other)
BOOST_PARAMETER_KEYWORD(mine, second)
enum { N = VF_T(3, 4) };
static double posw() { double w = vf_real(); vf_assume(w > 0); return w; }

// fourth powers of int samples times weights must fit an int
template<typename T> inline T small() { return fresh<T>(); }
template<> inline int small<int>() { return (int)vf_int(-20, 20); }
template<typename S, typename W> NOINLINE void lazy_weights()
{
    typedef stats<tag::weighted_sum, tag::weighted_mean, tag::weighted_moment<2>, tag::lazy_weighted_variance, tag::weighted_skewness, tag::weighted_kurtosis, tag::count> F;
    accumulator_set<S, F, external<W> > a; accumulator_set<void, stats<tag::sum_of_weights, tag::mean_of_weights>, W> wa; accumulator_set<S, F, W> r;
    int n = 1 + vf_choice(N);
    bool first = vf_choice(2);
    for (int i = 0; i < n; ++i)
    {
        S x = small<S>(); W w = small<W>(); vf_assume(w > 0);
        if (first) wa(weight = w);
        a(x, weight = w);
        if (!first) wa(weight = w);
        r(x, weight = w);
    }
    vf_eq(weighted_mean(a, weights = wa), weighted_mean(r), "mean"); vf_eq(weighted_moment<2>(a, weights = wa), weighted_moment<2>(r), "moment");
    vf_eq((double)weighted_sum(a), (double)weighted_sum(r), "sum"); vf_assert(count(a) == count(r), "count");
    vf_eq(lazy_weighted_variance(a, weights = wa), lazy_weighted_variance(r), "variance");
    vf_eq((double)sum_of_weights(a, weights = wa), (double)sum_of_weights(r), "weights"); vf_eq((double)sum_of_weights(wa), (double)sum_of_weights(r), "own_weights");
    double v = lazy_weighted_variance(r); vf_assume(v != 0);
    vf_eq(weighted_skewness(a, weights = wa), weighted_skewness(r), "skewness"); vf_eq(weighted_kurtosis(a, weights = wa), weighted_kurtosis(r), "kurtosis");
    vf_cover("end");
}
// @bound h_lazy_double up to 3 (thorough 4) weighted samples, weights kept in another set (pushed before or after), lazy features, double
HARNESS(h_lazy_double) { lazy_weights<double, double>(); }
// @bound h_lazy_int the same with int samples and int weights in [-20,20]
HARNESS(h_lazy_int) { lazy_weights<int, int>(); }
// @bound h_lazy_mixed the same with int samples in [-20,20] and double weights
HARNESS(h_lazy_mixed) { lazy_weights<int, double>(); }

// @bound h_immediate up to 3 (thorough 4) weighted samples, iterative features that read the external weights at every push
HARNESS(h_immediate)
{
    typedef stats<tag::immediate_weighted_mean, tag::weighted_variance, tag::weighted_covariance<double, tag::covariate1> > F;
    accumulator_set<double, F, external<double> > a; accumulator_set<void, stats<tag::sum_of_weights>, double> wa; accumulator_set<double, F, double> r;
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(), y = vf_real(), w = posw();
        wa(weight = w); a(x, weight = w, covariate1 = y, weights = wa); r(x, weight = w, covariate1 = y);
    }
    vf_eq(extract_result<tag::immediate_weighted_mean>(a), extract_result<tag::immediate_weighted_mean>(r), "mean");
    vf_eq(weighted_variance(a), weighted_variance(r), "variance");
    vf_eq(weighted_covariance(a), weighted_covariance(r), "covariance");
    vf_cover("end");
}
// @bound h_weight_features the weight features themselves (sum, Kahan sum, mean, immediate mean) read through the set, up to 3 (4) weights
HARNESS(h_weight_features)
{
    accumulator_set<double, stats<tag::sum_of_weights, tag::mean_of_weights, tag::weighted_sum>, external<double> > a;
    accumulator_set<double, stats<tag::immediate_mean_of_weights>, external<double> > b;
    accumulator_set<double, stats<tag::sum_of_weights_kahan>, external<double> > c;
    accumulator_set<void, stats<tag::sum_of_weights, tag::mean_of_weights>, double> wa; accumulator_set<void, stats<tag::immediate_mean_of_weights>, double> wb;
    accumulator_set<void, stats<tag::sum_of_weights_kahan>, double> wc;
    int n = 1 + vf_choice(N); double s = 0;
    for (int i = 0; i < n; ++i) { double w = posw(); s += w; a(1., weight = w); b(1., weight = w); c(1., weight = w); wa(weight = w); wb(weight = w); wc(weight = w); }
    vf_eq(sum_of_weights(a, weights = wa), s, "sum"); vf_eq(mean_of_weights(a, weights = wa), s / n, "mean"); vf_eq(mean_of_weights(b, weights = wb), s / n, "immediate_mean");
    vf_eq(sum_of_weights_kahan(c, weights = wc), s, "kahan");
    vf_cover("end");
}
// @bound h_tail_quantile weighted tail quantile (left, cache 3, every probability) with external weights, up to 3 samples
HARNESS(h_tail_quantile)
{
    typedef stats<tag::weighted_tail_quantile<left> > F;
    accumulator_set<double, F, external<double> > a(tag::tail<left>::cache_size = 3); accumulator_set<void, stats<tag::sum_of_weights>, double> wa;
    accumulator_set<double, F, double> r(tag::tail<left>::cache_size = 3);
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i) { double x = vf_real(), w = posw(); a(x, weight = w); wa(weight = w); r(x, weight = w); }
    double p = vf_real_in(0.001, 1);
    vf_eq(quantile(a, weights = wa, quantile_probability = p), quantile(r, quantile_probability = p), "quantile");
    vf_cover("end");
}

// external<Feature, Tag>: passed with the extraction, held by reference<>, or named in the feature
template<typename S> NOINLINE void external_feature()
{
    typedef accumulator_set<S, stats<tag::sum, tag::moment<2> > > sums; typedef stats<tag::mean, tag::lazy_variance, tag::count> F;
    typedef tag::external<tag::sum, mine::other> X; typedef tag::external<tag::moment<2>, mine::other> Y;
    sums s; accumulator_set<S, F> r;
    accumulator_set<S, stats<tag::mean, tag::lazy_variance, X, Y> > a;
    accumulator_set<S, stats<tag::mean, tag::lazy_variance, X, Y, tag::reference<sums, mine::other> > > b(other = s);
    accumulator_set<S, stats<tag::mean, tag::lazy_variance, tag::external<tag::sum, mine::other, sums>, tag::external<tag::moment<2>, mine::other, sums> > > c(other = s);
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        S x = fresh<S>();
        if (i & 1) s(x);
        a(x); b(x); c(x); r(x);
        if (!(i & 1)) s(x);
        vf_eq(mean(a, other = s), mean(r), "passed"); vf_eq(mean(b), mean(r), "referenced"); vf_eq(mean(c), mean(r), "named");
    }
    vf_eq(lazy_variance(a, other = s), lazy_variance(r), "passed_variance"); vf_eq(lazy_variance(b), lazy_variance(r), "referenced_variance"); vf_eq(lazy_variance(c), lazy_variance(r), "named_variance");
    vf_eq((double)sum(a, other = s), (double)sum(s), "sum"); vf_eq((double)sum(b), (double)sum(s), "sum"); vf_eq((double)sum(c), (double)sum(s), "sum");
    vf_assert(count(a) == (std::size_t)n && count(b) == (std::size_t)n && count(c) == (std::size_t)n, "count");
    // what is passed wins over what is held, and a copy of a set refers to what the original refers to
    sums t; S z = fresh<S>(); t(z);
    vf_eq((double)sum(b, other = t), (double)z, "passed_first");
    accumulator_set<S, stats<tag::mean, tag::lazy_variance, tag::external<tag::sum, mine::other, sums>, tag::external<tag::moment<2>, mine::other, sums> > > d(c);
    S x = fresh<S>(); s(x); d(x); r(x); vf_eq(mean(d), mean(r), "copied"); vf_eq((double)sum(c), (double)sum(s), "shared");
    vf_cover("end");
}
// @bound h_feature_double mean and lazy variance with sum and second moment in another set, three ways of naming it, up to 3 (4) samples, double
HARNESS(h_feature_double) { external_feature<double>(); }
// @bound h_feature_int the same with int samples
HARNESS(h_feature_int) { external_feature<int>(); }
// weighted sums and total weights in another set, samples and weights of different types
template<typename S, typename W> NOINLINE void external_weighted()
{
    typedef accumulator_set<S, stats<tag::weighted_sum, tag::sum_of_weights, tag::weighted_moment<2> >, W> sums; sums s;
    typedef tag::external<tag::weighted_sum, mine::other> X; typedef tag::external<tag::sum_of_weights, mine::other> Y; typedef tag::external<tag::weighted_moment<2>, mine::other> Z;
    accumulator_set<S, stats<tag::weighted_mean, tag::lazy_weighted_variance, X, Y, Z>, W> a;
    accumulator_set<S, stats<tag::weighted_mean, tag::lazy_weighted_variance, tag::external<tag::weighted_sum, mine::other, sums>, tag::external<tag::sum_of_weights, mine::other, sums>, tag::external<tag::weighted_moment<2>, mine::other, sums> >, W> c(other = s);
    accumulator_set<S, stats<tag::weighted_mean, tag::lazy_weighted_variance>, W> r;
    int n = 1 + vf_choice(2);
    for (int i = 0; i < n; ++i) { S x = small<S>(); W w = small<W>(); vf_assume(w > 0); s(x, weight = w); a(x, weight = w); c(x, weight = w); r(x, weight = w); }
    vf_eq(weighted_mean(a, other = s), weighted_mean(r), "mean"); vf_eq(weighted_mean(c), weighted_mean(r), "named_mean");
    vf_eq(lazy_weighted_variance(a, other = s), lazy_weighted_variance(r), "variance"); vf_eq(lazy_weighted_variance(c), lazy_weighted_variance(r), "named_variance");
    vf_eq((double)sum_of_weights(a, other = s), (double)sum_of_weights(r), "weights"); vf_eq((double)sum_of_weights(c), (double)sum_of_weights(r), "named_weights");
    vf_eq((double)weighted_sum(a, other = s), (double)weighted_sum(s), "sum"); vf_eq((double)weighted_sum(c), (double)weighted_sum(s), "named_sum");
    vf_cover("end");
}
// @bound h_feature_weighted weighted mean and variance with weighted sum, total weight and second moment in another set, passed or named, 1..2 samples: int samples with real weights, real samples with int weights, both real
HARNESS(h_feature_weighted) { switch (vf_choice(3)) { case 0: external_weighted<int, double>(); break; case 1: external_weighted<double, int>(); break; default: external_weighted<double, double>(); } }
// @bound h_two_sets sum from one external set, count from another, up to 3 (4) samples
HARNESS(h_two_sets)
{
    typedef accumulator_set<double, stats<tag::sum> > sums; typedef accumulator_set<double, stats<tag::count> > counts; sums s; counts k;
    accumulator_set<double, stats<tag::mean, tag::external<tag::sum, mine::other, sums>, tag::external<tag::count, mine::second, counts> > > a(other = s, second = k);
    accumulator_set<double, stats<tag::mean, tag::external<tag::sum, mine::other>, tag::external<tag::count, mine::second> > > b;
    int n = 1 + vf_choice(N); double t = 0;
    for (int i = 0; i < n; ++i) { double x = vf_real(); s(x); k(x); a(x); b(x); t += x; }
    vf_eq(mean(a), t / n, "mean"); vf_eq(mean(b, second = k, other = s), t / n, "passed"); vf_assert(count(a) == (std::size_t)n, "count");
    vf_cover("end");
}
// @bound h_mean_elsewhere covariance-style features reading an external immediate mean while they are updated, up to 3 (4) samples
HARNESS(h_mean_elsewhere)
{
    typedef accumulator_set<double, stats<tag::immediate_mean> > means; means m;
    accumulator_set<double, stats<tag::variance, tag::external<tag::immediate_mean, mine::other, means> > > a(other = m); accumulator_set<double, stats<tag::variance> > r;
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i) { double x = vf_real(); m(x); a(x); r(x); vf_eq(variance(a), variance(r), "variance"); vf_eq(mean(a), mean(m), "mean"); }
    vf_cover("end");
}
// @bound h_value value<> and reference<> features of two tags in one set, read before and after the originals change, with and without samples, after copying
HARNESS(h_value)
{
    double u = vf_real(), v = vf_real(); int k = (int)vf_int(-100, 100); double u0 = u; int k0 = k;
    typedef accumulator_set<double, stats<tag::value<double, mine::other>, tag::reference<double, mine::other>, tag::count> > one;
    accumulator_set<double, stats<tag::value<double, mine::other>, tag::value<int, mine::second> > > a(other = u, second = k);
    accumulator_set<double, stats<tag::reference<double, mine::other>, tag::reference<int, mine::second>, tag::sum> > b(other = u, second = k);
    accumulator_set<double, stats<tag::value<double, mine::other>, tag::sum> > c(other = v);
    one d(other = u);
    if (vf_choice(2)) { double x = vf_real(); a(x); b(x); c(x); d(x); }
    vf_eq((value<double, mine::other>(a)), u0, "value"); vf_assert((value<int, mine::second>(a)) == k0, "value_int");
    vf_eq((reference<double, mine::other>(b)), u0, "reference"); vf_assert((reference<int, mine::second>(b)) == k0, "reference_int");
    u = vf_real(); k = (int)vf_int(-100, 100);
    vf_eq((value<double, mine::other>(a)), u0, "value_kept"); vf_assert((value<int, mine::second>(a)) == k0, "value_kept_int");
    vf_eq((value_tag<mine::other>(a)), u0, "value_by_tag"); vf_eq((value<double, mine::other>(c)), v, "value_other_set");
    vf_eq((reference<double, mine::other>(b)), u, "reference_now"); vf_assert((reference<int, mine::second>(b)) == k, "reference_now_int"); vf_eq((reference_tag<mine::other>(b)), u, "reference_by_tag");
    vf_assert(&reference<double, mine::other>(b) == &u && &reference_tag<mine::other>(b) == &u && &reference<double, mine::other>(d) == &u, "same_object");
    vf_eq((value<double, mine::other>(d)), u0, "both_value");
    auto b2 = b; vf_assert(&reference<double, mine::other>(b2) == &u, "copy_refers"); auto a2 = a; vf_eq((value<double, mine::other>(a2)), u0, "copy_value");
    double w = vf_real(); reference<double, mine::other>(b2) = w; vf_eq(u, w, "writes_through");
    vf_cover("end");
}
