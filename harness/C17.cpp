#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators;

template<typename A, typename T> NOINLINE void window_is(A const &a, T const *xs, int n, int W)
{
    int k = n < W ? n : W, j = n - k;
    auto r = rolling_window(a);
    vf_assert((int)r.size() == k, "window_size");
    int seen = 0;
    for (auto it = r.begin(); it != r.end() && seen < k; ++it, ++seen)
        vf_eq((double)*it, (double)xs[j + seen], "window_content");
    vf_assert(seen == k, "window_length");
}
template<typename T, typename Feat> NOINLINE void roll(int Wmin, int Wmax, int N)
{
    int W = Wmin + vf_choice(Wmax - Wmin + 1);
    accumulator_set<T, Feat> a(tag::rolling_window::window_size = W);
    T xs[40];
    vf_assert(rolling_count(a) == 0, "count0"); vf_eq((double)rolling_sum(a), 0, "sum0"); window_is(a, xs, 0, W);
    for (int i = 0; i < N; ++i)
    {
        xs[i] = fresh<T>();
        a(xs[i]);
        int n = i + 1, k = n < W ? n : W; double s = 0;
        for (int j = n - k; j < n; ++j) s += (double)xs[j];
        vf_assert(rolling_count(a) == (std::size_t)k, "count");
        vf_eq((double)rolling_sum(a), s, "sum");
        window_is(a, xs, n, W);
    }
    vf_cover("end");
}
typedef stats<tag::rolling_sum, tag::rolling_count, tag::rolling_window> F1;
typedef stats<tag::rolling_window, tag::rolling_count, tag::rolling_sum> F2;
// @bound h_double window 1..5 (thorough 9), 14 (thorough 36) reals
HARNESS(h_double) { roll<double, F1>(1, VF_T(5, 9), VF_T(14, 36)); }
// @bound h_order window 1..3, 8 reals, features listed in another order
HARNESS(h_order) { roll<double, F2>(1, 3, 8); }
// @bound h_int window 1..4, 10 ints
HARNESS(h_int) { roll<int, F1>(1, 4, 10); }
// @bound h_unsigned window 1..3, 8 unsigned
HARNESS(h_unsigned) { roll<unsigned, F1>(1, 3, 8); }
// @bound h_float window 1..3, 7 floats
HARNESS(h_float) { roll<float, F2>(1, 3, 7); }
// @bound h_w0 window 0, 4 reals
HARNESS(h_w0) { roll<double, F1>(0, 0, 4); }
// one statistic alone
// @bound h_alone window 1..4, 9 reals, each statistic in its own set
HARNESS(h_alone)
{
    int W = 1 + vf_choice(4);
    accumulator_set<double, stats<tag::rolling_sum> > s(tag::rolling_window::window_size = W);
    accumulator_set<double, stats<tag::rolling_count> > c(tag::rolling_window::window_size = W);
    accumulator_set<double, stats<tag::rolling_window> > w(tag::rolling_window::window_size = W);
    double xs[9];
    for (int i = 0; i < 9; ++i)
    {
        xs[i] = vf_real(); s(xs[i]); c(xs[i]); w(xs[i]);
        int k = i + 1 < W ? i + 1 : W; double t = 0;
        for (int j = i + 1 - k; j <= i; ++j) t += xs[j];
        vf_eq(rolling_sum(s), t, "sum"); vf_assert(rolling_count(c) == (std::size_t)k, "count"); window_is(w, xs, i + 1, W);
    }
    vf_cover("end");
}
// a copy keeps the window
// @bound h_copy window 1..3, 1..4 reals, copy and assignment, 4 more reals
HARNESS(h_copy)
{
    int W = 1 + vf_choice(3), n0 = 1 + vf_choice(4);
    accumulator_set<double, F1> a(tag::rolling_window::window_size = W), o(tag::rolling_window::window_size = 2);
    double xs[8];
    for (int i = 0; i < n0; ++i) { xs[i] = vf_real(); a(xs[i]); }
    o(1.0);
    accumulator_set<double, F1> b(a); o = a;
    for (int i = n0; i < n0 + 4; ++i)
    {
        xs[i] = vf_real(); b(xs[i]); o(xs[i]);
        int n = i + 1, k = n < W ? n : W; double s = 0;
        for (int j = n - k; j < n; ++j) s += xs[j];
        vf_eq(rolling_sum(b), s, "sum_copy"); vf_eq(rolling_sum(o), s, "sum_assigned");
        window_is(b, xs, n, W); window_is(o, xs, n, W);
        vf_assert(rolling_count(o) == (std::size_t)k, "count_assigned");
    }
    window_is(a, xs, n0, W);
    vf_cover("end");
}
// long history
// @bound h_long_history windows 1, 7, 32 and 300, 260 reals, every 13th arbitrary
HARNESS(h_long_history)
{
    int const Ws[4] = { 1, 7, 32, 300 };
    int W = Ws[vf_choice(4)];
    accumulator_set<double, F1> a(tag::rolling_window::window_size = W);
    static double xs[260]; 
    for (int i = 0; i < 260; ++i)
    {
        xs[i] = i % 13 == 5 ? vf_real() : (double)((i * 7) % 11) - 5; a(xs[i]);
        if (i % 16 == 0 || i > 255)
        {
            int n = i + 1, k = n < W ? n : W; double s = 0;
            for (int j = n - k; j < n; ++j) s += xs[j];
            vf_eq(rolling_sum(a), s, "sum"); vf_assert(rolling_count(a) == (std::size_t)k, "count"); window_is(a, xs, n, W);
        }
    }
    vf_cover("end");
}
// IEEE: sums that double represents are exact
// @cfg h_ieee round=1
// @bound h_ieee window 1..3, 7 doubles that are integers below 2^45
HARNESS(h_ieee)
{
    int W = 1 + vf_choice(3);
    accumulator_set<double, F1> a(tag::rolling_window::window_size = W);
    double xs[7];
    for (int i = 0; i < 7; ++i)
    {
        xs[i] = (double)vf_int(-(1L << 45), 1L << 45); a(xs[i]);
        int n = i + 1, k = n < W ? n : W; double s = 0;
        for (int j = n - k; j < n; ++j) s += xs[j];
        vf_assert(rolling_sum(a) == s, "sum");
        int q = 0; auto r = rolling_window(a);
        for (auto it = r.begin(); it != r.end(); ++it, ++q) vf_assert(*it == xs[n - k + q], "content");
    }
    vf_cover("end");
}
// @cfg h_ieee_long round=1
// @bound h_ieee_long window 1..3, 6 longs up to 2^58 in magnitude: sum and content exact to the unit
HARNESS(h_ieee_long)
{
    int W = 1 + vf_choice(3);
    accumulator_set<long, F1> a(tag::rolling_window::window_size = W);
    long xs[6];
    for (int i = 0; i < 6; ++i)
    {
        xs[i] = vf_int(-(1L << 58), 1L << 58); a(xs[i]);
        int n = i + 1, k = n < W ? n : W; long s = 0;
        for (int j = n - k; j < n; ++j) s += xs[j];
        vf_assert(rolling_sum(a) == s, "sum");
        int q = 0; auto r = rolling_window(a);
        for (auto it = r.begin(); it != r.end(); ++it, ++q) vf_assert(*it == xs[n - k + q], "content");
    }
    vf_cover("end");
}
