#include "common.h"
#include "fresh.h"
#include "store.h"
#include <boost/accumulators/statistics/error_of.hpp>
#include <boost/accumulators/statistics/error_of_mean.hpp>
#include <boost/accumulators/statistics/with_error.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <cmath>
using namespace boost::accumulators;

template<typename T> NOINLINE void run(int N)
{
    accumulator_set<T, stats<tag::error_of<tag::mean> > > lz;
    accumulator_set<T, stats<tag::error_of<tag::mean(immediate)> > > im;
    accumulator_set<T, stats<tag::mean, tag::error_of<tag::mean> > > both;
    double xs[12], s = 0;
    int n = 2 + vf_choice(N - 1);
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); xs[i] = (double)x; s += xs[i];
        lz(x); im(x); both(x);
        if (i == 0) continue;
        double m = s / (i + 1), q = 0;
        for (int k = 0; k <= i; ++k) q += (xs[k] - m) * (xs[k] - m);
        double e = std::sqrt(q / (i + 1) / i);
        vf_eq(error_of<tag::mean>(lz), e, "lazy");
        vf_eq(error_of<tag::immediate_mean>(im), e, "immediate");
        vf_eq(error_of<tag::mean>(both), e, "both");
        vf_eq(mean(both), m, "mean");
    }
    vf_cover("end");
}
// @bound h_double 2..4 (thorough 6) reals
HARNESS(h_double) { run<double>(VF_T(4, 6)); }
// @bound h_float 2..3 floats
HARNESS(h_float) { run<float>(3); }
// @bound h_int 2..3 ints
HARNESS(h_int) { run<int>(3); }

// @bound h_with_error 2..4 reals
HARNESS(h_with_error)
{
    accumulator_set<double, stats<tag::mean, with_error<tag::mean> > > a;
    accumulator_set<double, stats<with_error<tag::mean(immediate)>, tag::mean(immediate) > > b;
    double xs[6], s = 0;
    int n = 2 + vf_choice(3);
    for (int i = 0; i < n; ++i) { xs[i] = vf_real(); s += xs[i]; a(xs[i]); b(xs[i]); }
    double m = s / n, q = 0;
    for (int k = 0; k < n; ++k) q += (xs[k] - m) * (xs[k] - m);
    vf_eq(mean(a), m, "mean_a"); vf_eq(mean(b), m, "mean_b");
    vf_eq(error_of<tag::mean>(a), std::sqrt(q / n / (n - 1)), "error_a");
    vf_eq(error_of<tag::immediate_mean>(b), std::sqrt(q / n / (n - 1)), "error_b");
    vf_cover("end");
}
// long history: the divisor must be count-1 at any size
// @bound h_long_history 200 samples, 2 arbitrary
HARNESS(h_long_history)
{
    accumulator_set<double, stats<tag::error_of<tag::mean> > > lz;
    accumulator_set<double, stats<tag::error_of<tag::mean(immediate)> > > im;
    double s = 0, s2 = 0;
    for (int i = 0; i < 200; ++i)
    {
        double x = (i == 3 || i == 150) ? vf_real() : (double)(i % 5) - 2;
        lz(x); im(x); s += x; s2 += x * x;
        if (i == 30 || i == 198)
        {
            double n = i + 1, v = s2 / n - s / n * (s / n);
            vf_eq(error_of<tag::mean>(lz), std::sqrt(v / i), "lazy");
            vf_eq(error_of<tag::immediate_mean>(im), std::sqrt(v / i), "immediate");
        }
    }
    vf_cover("end");
}

// one more sample after any number of samples with any mean and any (non-negative) variance
// @bound h_step any count in 2..2^40, any mean and second moment consistent with each other, one arbitrary sample
HARNESS(h_step)
{
    accumulator_set<double, stats<tag::error_of<tag::mean> > > lz;
    accumulator_set<double, stats<tag::error_of<tag::mean(immediate)> > > im;
    lz(3); lz(5); lz(11); im(3); im(5); im(11);
    long n = vf_int(2, 1L << 40); double N = (double)n, m = vf_real(), v = vf_real(), x = vf_real(); vf_assume(v >= 0);
    { store st; { oarchive o(st); lz.serialize(o, 0); } exactly(st, 3);
      double s1 = 19, s2 = 155; int c = seekz(st, 3), i = seek(st, &s1, 1), j = seek(st, &s2, 1);
      st.z[c] = n; st.d[i] = N * m; st.d[j] = N * (v + m * m); put(lz, st); }
    { store st; { oarchive o(st); im.serialize(o, 0); } exactly(st, 3);
      double s1 = 19. / 3, s2 = 155. / 3 - s1 * s1; int c = seekz(st, 3), i = seek(st, &s1, 1), j = seek(st, &s2, 1);
      st.z[c] = n; st.d[i] = m; st.d[j] = v; put(im, st); }
    vf_eq(error_of<tag::mean>(lz), std::sqrt(v / (N - 1)), "lazy"); vf_eq(error_of<tag::immediate_mean>(im), std::sqrt(v / (N - 1)), "immediate");
    lz(x); im(x);
    double m1 = (N * m + x) / (N + 1), v1 = (N * (v + m * m) + x * x) / (N + 1) - m1 * m1;
    vf_eq(error_of<tag::mean>(lz), std::sqrt(v1 / N), "lazy_next"); vf_eq(error_of<tag::immediate_mean>(im), std::sqrt(v1 / N), "immediate_next");
    vf_cover("end");
}
