#include "C07.h"
#include <boost/accumulators/statistics/weighted_sum.hpp>
typedef std::complex<double> Z;
static Z zz() { double a = vf_real(); double b = vf_real(); return Z(a, b); }
static NOINLINE void zeq(Z const &a, double re, double im, char const *t) { vf_eq(a.real(), re, t); vf_eq(a.imag(), im, t); }
// @bound h_complex complex samples, up to 3 (thorough 4): count, sum (any initial value), mean lazy and immediate by parts; second moment and variance with complex squares
HARNESS(h_complex)
{
    int n = 1 + vf_choice(N); Z s0 = zz();
    accumulator_set<Z, stats<tag::count, tag::sum, tag::mean, tag::moment<2>, tag::lazy_variance> > a; accumulator_set<Z, stats<tag::immediate_mean, tag::variance> > b;
    accumulator_set<Z, stats<tag::sum> > c(sample = s0);
    double re = 0, im = 0, re2 = 0, im2 = 0;
    for (int i = 0; i < n; ++i) { Z x = zz(); a(x); b(x); c(x); double p = x.real(), q = x.imag(); re += p; im += q; re2 += p * p - q * q; im2 += 2 * p * q; }
    vf_assert(count(a) == (std::size_t)n, "count"); zeq(sum(a), re, im, "sum"); zeq(sum(c), re + s0.real(), im + s0.imag(), "sum_from"); zeq(mean(a), re / n, im / n, "mean"); zeq(mean(b), re / n, im / n, "immediate_mean");
    zeq(boost::accumulators::moment<2>(a), re2 / n, im2 / n, "moment2");
    double vr = re2 / n - (re / n * (re / n) - im / n * (im / n)), vi = im2 / n - 2 * (re / n) * (im / n);
    zeq(lazy_variance(a), vr, vi, "lazy_variance"); zeq(variance(b), vr, vi, "variance");
    vf_cover("end");
}
template<typename W> NOINLINE void wcase()
{
    int n = 1 + vf_choice(N);
    accumulator_set<Z, stats<tag::weighted_sum, tag::weighted_mean>, W> a; accumulator_set<Z, stats<tag::immediate_weighted_mean>, W> b;
    double re = 0, im = 0, t = 0;
    for (int i = 0; i < n; ++i)
    {
        Z x = zz(); W w = drawn_weight<W>(); a(x, weight = w); b(x, weight = w);
        double p = x.real(), q = x.imag(); re += w * p; im += w * q; t += w;
    }
    vf_eq((double)sum_of_weights(a), t, "sum_of_weights"); zeq(weighted_sum(a), re, im, "weighted_sum"); zeq(weighted_mean(a), re / t, im / t, "weighted_mean"); zeq(weighted_mean(b), re / t, im / t, "immediate_weighted_mean");
    vf_cover("end");
}
// @bound h_complex_weighted complex samples with double weights, up to 3 (4)
HARNESS(h_complex_weighted) { wcase<double>(); }
// @bound h_complex_weighted_int complex samples with int weights, up to 3 (4)
HARNESS(h_complex_weighted_int) { wcase<int>(); }
// @bound h_complex_weights double samples (any initial value) with complex weights, up to 3 (4): weighted sum and sum of weights
HARNESS(h_complex_weights)
{
    int n = vf_choice(N + 1); double s0 = vf_real();
    accumulator_set<double, stats<tag::weighted_sum, tag::sum_of_weights>, Z> a(sample = s0);
    double re = s0, im = 0, tr = 0, ti = 0;
    for (int i = 0; i < n; ++i) { double x = vf_real(); Z w = zz(); a(x, weight = w); re += x * w.real(); im += x * w.imag(); tr += w.real(); ti += w.imag(); }
    zeq(weighted_sum(a), re, im, "weighted_sum"); zeq(sum_of_weights(a), tr, ti, "sum_of_weights");
    vf_cover("end");
}
// @bound h_complex_wmoment second weighted moment and lazy weighted variance of complex samples with double weights, up to 3 (4)
HARNESS(h_complex_wmoment)
{
    int n = 1 + vf_choice(N); accumulator_set<Z, stats<tag::weighted_moment<2>, tag::lazy_weighted_variance>, double> c; double t = 0, re = 0, im = 0, re2 = 0, im2 = 0;
    for (int i = 0; i < n; ++i)
    { Z x = zz(); double w = drawn_weight<double>(), p = x.real(), q = x.imag(); c(x, weight = w); t += w; re += w * p; im += w * q; re2 += w * (p * p - q * q); im2 += w * 2 * p * q; }
    zeq(weighted_moment<2>(c), re2 / t, im2 / t, "weighted_moment");
    zeq(lazy_weighted_variance(c), re2 / t - (re / t * (re / t) - im / t * (im / t)), im2 / t - 2 * (re / t) * (im / t), "lazy_weighted_variance");
    vf_cover("end");
}
