#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators;
static int mn(int a, int b) { return a < b ? a : b; }

template<typename T, bool Var> NOINLINE void lazies(int Wmax, int N, int M)
{
    int W = 1 + vf_choice(Wmax);
    accumulator_set<T, stats<tag::rolling_mean(lazy)> > m(tag::rolling_window::window_size = W);
    accumulator_set<T, stats<tag::rolling_moment<1>, tag::rolling_moment<2>, tag::rolling_moment<3>, tag::rolling_moment<4> > > o(tag::rolling_window::window_size = W);
    // with the lazy mean first, the lazy variance uses it; otherwise it brings in the default (immediate) mean
    accumulator_set<T, stats<tag::rolling_mean(lazy), tag::rolling_variance(lazy)> > z(tag::rolling_window::window_size = W);
    accumulator_set<T, stats<tag::rolling_variance(lazy)> > v(tag::rolling_window::window_size = W);
    double xs[40];
    vf_eq((double)rolling_variance(v), 0, "variance0");
    for (int i = 0; i < N; ++i)
    {
        T x = M ? (T)vf_int(-M, M) : fresh<T>();
        xs[i] = (double)x; m(x); o(x); z(x); if (Var) v(x);
        int n = i + 1, k = mn(n, W); double s[5] = {0};
        for (int j = n - k; j < n; ++j) { double p = 1; for (int e = 1; e < 5; ++e) { p *= xs[j]; s[e] += p; } }
        double mean = s[1] / k, var = k < 2 ? 0 : (s[2] - k * mean * mean) / (k - 1);
        vf_eq(rolling_mean(m), mean, "mean_lazy");
        vf_eq(rolling_moment<1>(o), s[1] / k, "moment1"); vf_eq(rolling_moment<2>(o), s[2] / k, "moment2");
        vf_eq(rolling_moment<3>(o), s[3] / k, "moment3"); vf_eq(rolling_moment<4>(o), s[4] / k, "moment4");
        vf_eq(rolling_variance(z), var, "variance_lazy_mean");
        if (Var) { vf_eq(rolling_variance(v), var, "variance_lazy"); vf_eq(rolling_mean(v), mean, "mean_with_variance"); }
    }
    vf_cover("end");
}
// @bound h_lazy_double window 1..5 (thorough 8), 12 (thorough 24) reals
HARNESS(h_lazy_double) { lazies<double, false>(VF_T(5, 8), VF_T(12, 24), 0); }
// @bound h_lazy_int window 1..3, 8 ints in [-100,100]
HARNESS(h_lazy_int) { lazies<int, false>(3, 8, 100); }
// @bound h_lazy_float window 1..3, 5 floats
HARNESS(h_lazy_float) { lazies<float, false>(3, 5, 0); }
// @bound h_lazy_var window 1..3, 5 (thorough 6) reals
HARNESS(h_lazy_var) { lazies<double, true>(3, VF_T(5, 6), 0); }
// @bound h_lazy_var_int window 1..3, 4 ints in [-100,100]
HARNESS(h_lazy_var_int) { lazies<int, true>(3, 4, 100); }

template<typename T> NOINLINE void imm_mean(int Wmax, int N)
{
    int W = 1 + vf_choice(Wmax);
    accumulator_set<T, stats<tag::rolling_mean(immediate)> > m(tag::rolling_window::window_size = W);
    double xs[16];
    for (int i = 0; i < N; ++i)
    {
        T x = fresh<T>(); xs[i] = (double)x; m(x);
        int n = i + 1, k = mn(n, W); double s = 0;
        for (int j = n - k; j < n; ++j) s += xs[j];
        vf_eq(rolling_mean(m), s / k, "mean_imm");
    }
    vf_cover("end");
}
// @bound h_mean_double window 1..3, 5 (thorough 6) reals, all orderings
HARNESS(h_mean_double) { imm_mean<double>(3, VF_T(5, 6)); }
// @bound h_mean_int window 1..3, 5 ints
HARNESS(h_mean_int) { imm_mean<int>(3, 5); }
// @bound h_mean_unsigned window 1..3, 5 unsigned
HARNESS(h_mean_unsigned) { imm_mean<unsigned>(3, 5); }
// @bound h_mean_uchar window 1..2, 4 unsigned char
HARNESS(h_mean_uchar) { imm_mean<unsigned char>(2, 4); }

template<typename T, typename Feat> NOINLINE void imm_var(int Wmax, int N)
{
    int W = 1 + vf_choice(Wmax);
    accumulator_set<T, Feat> v(tag::rolling_window::window_size = W);
    double xs[16];
    vf_eq((double)rolling_variance(v), 0, "variance0");
    for (int i = 0; i < N; ++i)
    {
        T x = fresh<T>(); xs[i] = (double)x; v(x);
        int n = i + 1, k = mn(n, W); double s = 0, q = 0;
        for (int j = n - k; j < n; ++j) { s += xs[j]; q += xs[j] * xs[j]; }
        vf_eq(rolling_mean(v), s / k, "mean");
        vf_eq(rolling_variance(v), k < 2 ? 0 : (q - s * s / k) / (k - 1), "variance_imm");
        vf_assert(rolling_count(v) == (std::size_t)k, "count");
    }
    vf_cover("end");
}
// @bound h_var_double window 1..3, 5 reals
HARNESS(h_var_double) { imm_var<double, stats<tag::rolling_variance> >(3, 5); }
// @bound h_var_int window 1..3, 4 ints
HARNESS(h_var_int) { imm_var<int, stats<tag::rolling_variance(immediate)> >(3, 4); }
// @bound h_var_unsigned window 1..3, 4 unsigned
HARNESS(h_var_unsigned) { imm_var<unsigned, stats<tag::rolling_variance> >(3, 4); }
// @bound h_var_with window 1..3, 4 reals, together with lazy statistics
HARNESS(h_var_with) { imm_var<double, stats<tag::rolling_variance, tag::rolling_moment<2>, tag::rolling_sum> >(3, 4); }
// longer windows, increasing samples (one ordering)
// @bound h_var_sorted window 5..7, 12 reals in any increasing or decreasing order
HARNESS(h_var_sorted)
{
    int W = 5 + vf_choice(3); bool up = vf_choice(2);
    accumulator_set<double, stats<tag::rolling_variance, tag::rolling_mean(immediate)> > v(tag::rolling_window::window_size = W);
    accumulator_set<double, stats<tag::rolling_variance(lazy), tag::rolling_mean(lazy)> > z(tag::rolling_window::window_size = W);
    double xs[12], x = vf_real();
    for (int i = 0; i < 12; ++i)
    {
        double d = vf_real(); vf_assume(d > 0); x = up ? x + d : x - d; xs[i] = x; v(x); z(x);
        int n = i + 1, k = mn(n, W); double s = 0, q = 0;
        for (int j = n - k; j < n; ++j) { s += xs[j]; q += xs[j] * xs[j]; }
        double r = k < 2 ? 0 : (q - s * s / k) / (k - 1);
        vf_eq(rolling_mean(v), s / k, "mean_imm"); vf_eq(rolling_mean(z), s / k, "mean_lazy");
        vf_eq(rolling_variance(v), r, "variance_imm"); vf_eq(rolling_variance(z), r, "variance_lazy");
    }
    vf_cover("end");
}
// long history
// @bound h_long_history windows 3, 16 and 40, 130 reals, 2 arbitrary
HARNESS(h_long_history)
{
    int const Ws[3] = { 3, 16, 40 };
    int W = Ws[vf_choice(3)];
    accumulator_set<double, stats<tag::rolling_variance, tag::rolling_mean(immediate)> > v(tag::rolling_window::window_size = W);
    accumulator_set<double, stats<tag::rolling_variance(lazy), tag::rolling_moment<3> > > z(tag::rolling_window::window_size = W);
    double xs[130];
    for (int i = 0; i < 130; ++i)
    {
        double x = (i == 7 || i == 122) ? vf_real() : (double)((i * 7) % 11) - 5; xs[i] = x;
        v(x); z(x);
        if (i % 32 == 3 || i > 100)
        {
            int n = i + 1, k = mn(n, W); double s = 0, q = 0, c = 0;
            for (int j = n - k; j < n; ++j) { s += xs[j]; q += xs[j] * xs[j]; c += xs[j] * xs[j] * xs[j]; }
            double r = (q - s * s / k) / (k - 1);
            vf_eq(rolling_mean(v), s / k, "mean_imm"); vf_eq(rolling_mean(z), s / k, "mean_lazy");
            vf_eq(rolling_variance(v), r, "variance_imm"); vf_eq(rolling_variance(z), r, "variance_lazy");
            vf_eq(rolling_moment<3>(z), c / k, "moment3");
        }
    }
    vf_cover("end");
}
