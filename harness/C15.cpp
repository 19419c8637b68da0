#include "common.h"
#include "store.h"
#include "fresh.h"
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/weighted_skewness.hpp>
#include <boost/accumulators/statistics/weighted_kurtosis.hpp>
#include <boost/accumulators/statistics/weighted_covariance.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <cmath>
using namespace boost::accumulators;

NOINLINE double ipow(double x, int k) { double r = 1; for (int i = 0; i < k; ++i) r *= x; return r; }

// sums, means, moments and variances under arbitrary weights (negative ones too) with non-zero running totals,
// asked for through the unweighted and the weighted names
template<typename T, typename W> NOINLINE void basic(int N)
{
    accumulator_set<T, stats<tag::sum, tag::mean, tag::moment<2>, tag::moment<3>, tag::variance(lazy), tag::sum_of_weights, tag::count>, W> a;
    accumulator_set<T, stats<tag::mean(immediate), tag::variance>, W> b;
    accumulator_set<T, stats<tag::weighted_mean, tag::weighted_variance(lazy)>, W> c;
    accumulator_set<T, stats<tag::weighted_variance, tag::weighted_mean(immediate), tag::weighted_sum>, W> d;
    double tw = 0, s[4] = {0};
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); W w = fresh<W>();
        tw += (double)w;
        for (int k = 1; k < 4; ++k) s[k] += (double)w * ipow((double)x, k);
        vf_assume(tw != 0);
        a(x, weight = w); b(x, weight = w); c(x, weight = w); d(weight = w, sample = x);
        double m = s[1] / tw, v = s[2] / tw - m * m;
        vf_assert(count(a) == (std::size_t)(i + 1), "count");
        vf_eq(sum_of_weights(a), tw, "sum_of_weights");
        vf_eq(sum(a), s[1], "sum"); vf_eq(weighted_sum(d), s[1], "weighted_sum");
        vf_eq(mean(a), m, "mean_lazy"); vf_eq(mean(b), m, "mean_imm");
        vf_eq(weighted_mean(c), m, "weighted_mean_lazy"); vf_eq(weighted_mean(d), m, "weighted_mean_imm");
        vf_eq(moment<2>(a), s[2] / tw, "moment2"); vf_eq(moment<3>(a), s[3] / tw, "moment3");
        vf_eq(variance(a), v, "variance_lazy"); vf_eq(variance(b), v, "variance_imm");
        vf_eq(weighted_variance(c), v, "weighted_variance_lazy"); vf_eq(weighted_variance(d), v, "weighted_variance_imm");
    }
    vf_cover("end");
}
// @bound h_dd 1..4 (thorough 6) reals with real weights of any sign, totals non-zero
HARNESS(h_dd) { basic<double, double>(VF_T(4, 6)); }
// @bound h_id 1..3 ints with real weights
HARNESS(h_id) { basic<int, double>(3); }
// @bound h_di 1..3 reals with int weights
HARNESS(h_di) { basic<double, int>(3); }
// @bound h_dsmall 1..3 reals with short weights in [-100,100]
HARNESS(h_dsmall) { basic<double, short>(3); }
// int samples with int weights, small enough that the weighted power sums stay in range
// @bound h_ii 1..3 ints in [-100,100] with int weights in [1,100]
HARNESS(h_ii)
{
    accumulator_set<int, stats<tag::sum, tag::mean, tag::moment<2>, tag::moment<3>, tag::variance(lazy), tag::sum_of_weights, tag::count>, int> a;
    accumulator_set<int, stats<tag::mean(immediate), tag::variance>, int> b;
    double tw = 0, s[4] = {0};
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i)
    {
        int x = (int)vf_int(-100, 100), w = (int)vf_int(1, 100);
        tw += w;
        for (int k = 1; k < 4; ++k) s[k] += (double)w * ipow((double)x, k);
        a(x, weight = w); b(x, weight = w);
        double m = s[1] / tw, v = s[2] / tw - m * m;
        vf_eq(sum(a), s[1], "sum"); vf_eq(mean(a), m, "mean_lazy"); vf_eq(mean(b), m, "mean_imm");
        vf_eq(moment<2>(a), s[2] / tw, "moment2"); vf_eq(moment<3>(a), s[3] / tw, "moment3");
        vf_eq(variance(a), v, "variance_lazy"); vf_eq(variance(b), v, "variance_imm");
    }
    vf_cover("end");
}
// higher moments
// @bound h_moments 1..3 weighted reals, orders 1..6
HARNESS(h_moments)
{
    accumulator_set<double, stats<tag::moment<1>, tag::moment<4>, tag::moment<5>, tag::weighted_moment<6> >, double> a;
    double tw = 0, s[7] = {0};
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(), w = vf_real(); tw += w; vf_assume(tw != 0);
        for (int k = 1; k < 7; ++k) s[k] += w * ipow(x, k);
        a(x, weight = w);
        vf_eq(moment<1>(a), s[1] / tw, "moment1"); vf_eq(moment<4>(a), s[4] / tw, "moment4");
        vf_eq(moment<5>(a), s[5] / tw, "moment5"); vf_eq(weighted_moment<6>(a), s[6] / tw, "moment6");
    }
    vf_cover("end");
}
// skewness, kurtosis
template<typename T> struct vf_integer { static bool const value = false; }; template<> struct vf_integer<int> { static bool const value = true; };
template<typename T, typename W> NOINLINE void shape(int N)
{
    accumulator_set<T, stats<tag::skewness>, W> sk;
    accumulator_set<T, stats<tag::kurtosis>, W> ku;
    accumulator_set<T, stats<tag::weighted_kurtosis, tag::weighted_skewness>, W> both;
    double xs[8], ws[8], tw = 0, s = 0;
    int n = 2 + vf_choice(N - 1);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); W w = fresh<W>(); vf_assume(w > 0); if (vf_integer<T>::value) vf_assume(x <= 40 && x >= -40);
        xs[i] = (double)x; ws[i] = (double)w; tw += ws[i]; s += ws[i] * xs[i];
        sk(x, weight = w); ku(x, weight = w); both(x, weight = w);
    }
    double m = s / tw, m2 = 0, m3 = 0, m4 = 0;
    for (int k = 0; k < n; ++k) { double d = xs[k] - m; m2 += ws[k] * d * d; m3 += ws[k] * d * d * d; m4 += ws[k] * d * d * d * d; }
    m2 /= tw; m3 /= tw; m4 /= tw;
    vf_assume(m2 > 0);
    vf_eq(kurtosis(ku), m4 / (m2 * m2) - 3, "kurtosis");
    vf_eq(weighted_kurtosis(both), m4 / (m2 * m2) - 3, "weighted_kurtosis");
    double r = std::sqrt(m2);
    vf_eq(skewness(sk), m3 / (m2 * r), "skewness");
    vf_eq(weighted_skewness(both), m3 / (m2 * r), "weighted_skewness");
    vf_cover("end");
}
// @bound h_shape 2..3 reals with positive weights, non-zero variance
HARNESS(h_shape) { shape<double, double>(3); }
// @bound h_shape_int_weight 2..3 reals with positive int weights, non-zero variance
HARNESS(h_shape_int_weight) { shape<double, int>(3); }
// @bound h_shape_kurt4 2 reals (thorough 4) with positive weights
// @thorough h_shape_kurt4
HARNESS(h_shape_kurt4) { shape<double, double>(VF_T(2, 4)); }

// variates
template<typename T, typename W, typename V> NOINLINE void variates(int N)
{
    accumulator_set<T, stats<tag::mean_of_variates<V, tag::covariate1>, tag::mean, tag::count>, W> a;
    accumulator_set<T, stats<tag::mean_of_variates<V, tag::covariate1>(immediate), tag::mean(immediate)>, W> b;
    accumulator_set<T, stats<tag::weighted_sum_of_variates<V, tag::covariate2>, tag::weighted_mean_of_variates<V, tag::covariate2>, tag::sum>, W> c;
    double tw = 0, sx = 0, s1 = 0, s2 = 0;
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); W w = fresh<W>(); V u = fresh<V>(), v = fresh<V>();
        tw += (double)w; vf_assume(tw != 0);
        sx += (double)w * (double)x; s1 += (double)w * (double)u; s2 += (double)w * (double)v;
        a(x, weight = w, covariate1 = u, covariate2 = v);
        b(x, covariate2 = v, weight = w, covariate1 = u);
        c(x, covariate1 = u, covariate2 = v, weight = w);
        vf_eq((extract_result<tag::mean_of_variates<V, tag::covariate1> >(a)), s1 / tw, "mean_of_variates");
        vf_eq((extract_result<tag::mean_of_variates<V, tag::covariate1> >(b)), s1 / tw, "imm_mean_of_variates");
        vf_eq((extract_result<tag::weighted_sum_of_variates<V, tag::covariate2> >(c)), s2, "weighted_sum_of_variates");
        vf_eq((extract_result<tag::weighted_mean_of_variates<V, tag::covariate2> >(c)), s2 / tw, "weighted_mean_of_variates");
        vf_eq(mean(a), sx / tw, "mean"); vf_eq(mean(b), sx / tw, "imm_mean"); vf_eq(sum(c), sx, "sum");
        vf_assert(count(a) == (std::size_t)(i + 1), "count");
    }
    vf_cover("end");
}
// @bound h_variates 1..4 weighted reals with two variates
HARNESS(h_variates) { variates<double, double, double>(4); }
// @bound h_variates_int 1..3 weighted reals with int variates, int weights
HARNESS(h_variates_int) { variates<double, int, int>(3); }

// covariance under the weighted and unweighted names
// @bound h_cov 1..4 pairs with weights of any sign, totals non-zero
HARNESS(h_cov)
{
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1>, tag::count>, double> a;
    accumulator_set<double, stats<tag::weighted_covariance<double, tag::covariate1>, tag::mean>, double> b;
    double W = 0, sx = 0, sy = 0, sxy = 0;
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(), y = vf_real(), w = vf_real();
        W += w; sx += w * x; sy += w * y; sxy += w * x * y; vf_assume(W != 0);
        a(x, weight = w, covariate1 = y); b(x, weight = w, covariate1 = y);
        vf_eq(covariance(a), sxy / W - sx / W * (sy / W), "covariance");
        vf_eq(weighted_covariance(b), sxy / W - sx / W * (sy / W), "weighted_covariance");
    }
    vf_cover("end");
}

// unit weights give the unweighted statistics
// @bound h_unit 1..4 reals with weight one (given as double and as int)
HARNESS(h_unit)
{
    typedef stats<tag::sum, tag::mean, tag::moment<2>, tag::moment<3>, tag::variance(lazy), tag::count> F;
    typedef stats<tag::mean(immediate), tag::variance, tag::covariance<double, tag::covariate1> > G;
    accumulator_set<double, F> u; accumulator_set<double, F, double> w; accumulator_set<double, F, int> wi;
    accumulator_set<double, G> u2; accumulator_set<double, G, double> w2;
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(), y = vf_real();
        u(x); w(x, weight = 1.0); wi(x, weight = 1); u2(x, covariate1 = y); w2(x, weight = 1.0, covariate1 = y);
        vf_eq(sum(u), sum(w), "sum"); vf_eq(mean(u), mean(w), "mean"); vf_eq(moment<2>(u), moment<2>(w), "moment2");
        vf_eq(moment<3>(u), moment<3>(w), "moment3"); vf_eq(variance(u), variance(w), "variance_lazy");
        vf_eq(mean(u), mean(wi), "mean_i"); vf_eq(variance(u), variance(wi), "variance_i");
        vf_eq(mean(u2), mean(w2), "imm_mean"); vf_eq(variance(u2), variance(w2), "variance"); vf_eq(covariance(u2), covariance(w2), "covariance");
        vf_assert(count(u) == count(w), "count");
    }
    vf_cover("end");
}
// scaling all weights
// @bound h_scale 1..3 weighted reals, one arbitrary positive factor
HARNESS(h_scale)
{
    typedef stats<tag::mean, tag::moment<3>, tag::variance(lazy), tag::count> F;
    typedef stats<tag::mean(immediate), tag::variance> G;
    accumulator_set<double, F, double> a, b; accumulator_set<double, G, double> c, d;
    double f = vf_real(); vf_assume(f > 0);
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(), w = vf_real(); vf_assume(w > 0);
        a(x, weight = w); b(x, weight = f * w); c(x, weight = w); d(x, weight = f * w);
        vf_eq(mean(a), mean(b), "mean"); vf_eq(moment<3>(a), moment<3>(b), "moment3"); vf_eq(variance(a), variance(b), "variance_lazy");
        vf_eq(mean(c), mean(d), "imm_mean"); vf_eq(variance(c), variance(d), "variance");
    }
    vf_cover("end");
}
// an integer weight is a repetition
// @bound h_repeat 1..3 reals with weights in 1..3
HARNESS(h_repeat)
{
    typedef stats<tag::mean, tag::moment<3>, tag::variance(lazy), tag::sum> F;
    typedef stats<tag::mean(immediate), tag::variance> G;
    accumulator_set<double, F, int> a; accumulator_set<double, F> b; accumulator_set<double, G, int> c; accumulator_set<double, G> d;
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(); int k = 1 + vf_choice(3);
        a(x, weight = k); c(x, weight = k);
        for (int j = 0; j < k; ++j) { b(x); d(x); }
    }
    vf_eq(sum(a), sum(b), "sum"); vf_eq(mean(a), mean(b), "mean"); vf_eq(moment<3>(a), moment<3>(b), "moment3");
    vf_eq(variance(a), variance(b), "variance_lazy"); vf_eq(mean(c), mean(d), "imm_mean"); vf_eq(variance(c), variance(d), "variance");
    vf_cover("end");
}
// a zero weight (after a non-zero total) leaves every normalised statistic alone
// @bound h_zero 2..4 reals, one of the later weights zero
HARNESS(h_zero)
{
    typedef stats<tag::mean, tag::moment<3>, tag::variance(lazy), tag::sum> F;
    typedef stats<tag::mean(immediate), tag::variance> G;
    accumulator_set<double, F, double> a, b; accumulator_set<double, G, double> c, d;
    int n = 2 + vf_choice(3), z = 1 + vf_choice(n - 1);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(), w = i == z ? 0.0 : vf_real();
        if (i != z) { vf_assume(w > 0); b(x, weight = w); d(x, weight = w); }
        a(x, weight = w); c(x, weight = w);
    }
    vf_eq(sum(a), sum(b), "sum"); vf_eq(mean(a), mean(b), "mean"); vf_eq(moment<3>(a), moment<3>(b), "moment3");
    vf_eq(variance(a), variance(b), "variance_lazy"); vf_eq(mean(c), mean(d), "imm_mean"); vf_eq(variance(c), variance(d), "variance");
    vf_cover("end");
}
// initial values
// @bound h_init 1..3 weighted reals after an arbitrary initial sum and total weight
HARNESS(h_init)
{
    double s0 = vf_real(), s = s0;
    accumulator_set<double, stats<tag::sum>, double> a(sample = s0);
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i) { double x = vf_real(), w = vf_real(); a(x, weight = w); s += w * x; vf_eq(sum(a), s, "sum"); }
    vf_cover("end");
}
// long history
// @bound h_long_history 300 samples, 2 arbitrary samples and weights
HARNESS(h_long_history)
{
    accumulator_set<double, stats<tag::variance(lazy), tag::moment<3> >, double> lz;
    accumulator_set<double, stats<tag::variance, tag::mean(immediate)>, double> im;
    double W = 0, s1 = 0, s2 = 0, s3 = 0;
    for (int i = 0; i < 300; ++i)
    {
        bool f = i == 5 || i == 256;
        double x = f ? vf_real() : (double)(i % 9) - 4, w = f ? vf_real_in(0, 100) : 1 + (i % 5) * 0.5;
        lz(x, weight = w); im(x, weight = w); W += w; s1 += w * x; s2 += w * x * x; s3 += w * x * x * x;
        if (i == 65 || i > 297)
        {
            double v = s2 / W - (s1 / W) * (s1 / W);
            vf_eq(variance(lz), v, "lazy"); vf_eq(variance(im), v, "immediate"); vf_eq(moment<3>(lz), s3 / W, "moment3");
        }
    }
    vf_cover("end");
}

// one more sample after any total weight, any mean and any variance
// @bound h_step any count in 2..2^40, any total weight, mean and variance, one arbitrary sample of any weight keeping the total non-zero
HARNESS(h_step)
{
    accumulator_set<double, stats<tag::variance(lazy), tag::moment<3> >, double> lz;
    accumulator_set<double, stats<tag::variance, tag::mean(immediate)>, double> im;
    double const X[3] = { 3, 5, 11 }, Q[3] = { 1, 2, 4 };
    for (int i = 0; i < 3; ++i) { lz(X[i], weight = Q[i]); im(X[i], weight = Q[i]); }
    long n = vf_int(2, 1L << 40); double W = vf_real(), m = vf_real(), v = vf_real(), t = vf_real(), x = vf_real(), w = vf_real();
    vf_assume(W != 0 && W + w != 0);
    double w0 = 7, s1 = 57, s2 = 543, s3 = 5601;
    { store st; { oarchive o(st); lz.serialize(o, 0); } exactly(st, 5);
      int c = seekz(st, 3), q = seek(st, &w0, 1), i = seek(st, &s1, 1), j = seek(st, &s2, 1), k = seek(st, &s3, 1);
      st.z[c] = n; st.d[q] = W; st.d[i] = W * m; st.d[j] = W * (v + m * m); st.d[k] = W * t; put(lz, st); }
    { store st; { oarchive o(st); im.serialize(o, 0); } exactly(st, 4);
      double m0 = s1 / w0, v0 = s2 / w0 - m0 * m0; int c = seekz(st, 3), q = seek(st, &w0, 1), i = seek(st, &m0, 1), j = seek(st, &v0, 1);
      st.z[c] = n; st.d[q] = W; st.d[i] = m; st.d[j] = v; put(im, st); }
    vf_eq(variance(lz), v, "lazy_restored"); vf_eq(variance(im), v, "immediate_restored");
    lz(x, weight = w); im(x, weight = w);
    double m1 = (W * m + w * x) / (W + w), e2 = (W * (v + m * m) + w * x * x) / (W + w);
    vf_eq(mean(lz), m1, "mean"); vf_eq(mean(im), m1, "immediate_mean");
    vf_eq(variance(lz), e2 - m1 * m1, "lazy");
    vf_eq(variance(im), e2 - m1 * m1, "immediate");
    vf_eq(moment<3>(lz), (W * t + w * x * x * x) / (W + w), "moment3");
    vf_cover("end");
}

// samples, weights and variates of different types
// @bound h_shape_id 2..3 ints in -40..40 with positive real weights, non-zero variance
HARNESS(h_shape_id) { shape<int, double>(3); }
// @bound h_variates_mixed 1..3 samples, weights and variates: int/real/real, real/real/int, real/int/real
HARNESS(h_variates_mixed)
{
    switch (vf_choice(3)) { case 0: variates<int, double, double>(3); break; case 1: variates<double, double, int>(3); break; default: variates<double, int, double>(3); }
}
template<typename T, typename W, typename V> NOINLINE void cov_of(int N)
{
    accumulator_set<T, stats<tag::covariance<V, tag::covariate1>, tag::count>, W> a;
    double tw = 0, sx = 0, sy = 0, sxy = 0;
    int n = 1 + vf_choice(N);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); V y = fresh<V>(); W w = fresh<W>();
        double dx = (double)x, dy = (double)y, dw = (double)w;
        tw += dw; sx += dw * dx; sy += dw * dy; sxy += dw * dx * dy; vf_assume(tw != 0);
        a(x, weight = w, covariate1 = y);
        vf_eq(covariance(a), sxy / tw - sx / tw * (sy / tw), "covariance");
    }
    vf_cover("end");
}
// @bound h_cov_mixed 1..3 pairs: samples, weights and variates int/real/real, real/int/real, real/real/int, int/int/real
HARNESS(h_cov_mixed)
{
    switch (vf_choice(4)) { case 0: cov_of<int, double, double>(3); break; case 1: cov_of<double, int, double>(3); break;
        case 2: cov_of<double, double, int>(3); break; default: cov_of<int, int, double>(3); }
}
