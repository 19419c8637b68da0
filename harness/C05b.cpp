#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators;

// the set, or from some point on a copy of it
template<typename A> struct relocated
{
    A *p; A *own; explicit relocated(A &a) : p(&a), own(0) {} ~relocated() { delete own; }
    A &get() { return *p; } void move() { own = new A(*p); p = own; }
};
// @bound h_doc the three documented examples with arbitrary samples
HARNESS(h_doc)
{
    double x = vf_real(), y = vf_real(), z = vf_real();
    accumulator_set<double, features<tag::count, droppable<tag::sum> > > a;
    a(x); a(y); a.drop<tag::sum>(); a(z);
    vf_assert(count(a) == 3, "count"); vf_eq(sum(a), x + y, "sum");
    accumulator_set<double, features<tag::sum, droppable<tag::mean> > > b;
    b(x); b(y); b.drop<tag::mean>(); b(z);
    vf_eq(sum(b), x + y + z, "sum_goes_on"); vf_assert(count(b) == 2, "count_stops"); vf_eq(mean(b), (x + y + z) / 2, "mean");
    vf_cover("end");
}
// a stream with one drop of each of K features at arbitrary points
struct acc { double s, n; acc() : s(0), n(0) {} };
// @bound h_mean droppable sum, count, mean requested together; 5 steps of samples and drops in any order; the history moves on to a copy of the set before any step
HARNESS(h_mean)
{
    accumulator_set<double, features<droppable<tag::sum>, droppable<tag::count>, droppable<tag::mean> > > a_; relocated<decltype(a_)> c(a_); int at = vf_choice(5);
    bool S = true, C = true, M = true; double s = 0; int n = 0;
    for (int i = 0; i < 5; ++i)
    {
        if (i && i == at) c.move();
        auto &a = c.get();
        int k = vf_choice(4);
        if (k == 0) { double x = vf_real(); a(x); if (S || M) s += x; if (C || M) ++n; }
        if (k == 1) { vf_assume(S); S = false; a.drop<tag::sum>(); }
        if (k == 2) { vf_assume(C); C = false; a.drop<tag::count>(); }
        if (k == 3) { vf_assume(M); M = false; a.drop<tag::mean>(); }
    }
    auto &a = c.get();
    vf_eq(sum(a), s, "sum"); vf_assert(count(a) == (std::size_t)n, "count");
    if (n) vf_eq(mean(a), s / n, "mean");
    vf_cover("end");
}
// @bound h_immediate droppable immediate mean next to a droppable sum it does not use; 5 steps; the history moves on to a copy of the set before any step
HARNESS(h_immediate)
{
    accumulator_set<double, features<droppable<tag::mean(immediate)>, droppable<tag::sum> > > a_; relocated<decltype(a_)> c(a_); int at = vf_choice(5);
    bool S = true, M = true; double s = 0, m = 0; int n = 0;
    for (int i = 0; i < 5; ++i)
    {
        if (i && i == at) c.move();
        auto &a = c.get();
        int k = vf_choice(3);
        if (k == 0) { double x = vf_real(); a(x); if (S) s += x; if (M) { m += x; ++n; } }
        if (k == 1) { vf_assume(S); S = false; a.drop<tag::sum>(); }
        if (k == 2) { vf_assume(M); M = false; a.drop<tag::mean>(); }
    }
    auto &a = c.get();
    vf_eq(sum(a), s, "sum"); vf_assert(count(a) == (std::size_t)n, "count"); if (n) vf_eq(mean(a), m / n, "mean");
    vf_cover("end");
}
// @bound h_weighted droppable weighted mean and maximum, weights halves and thirds; 5 steps; the history moves on to a copy of the set before any step
HARNESS(h_weighted)
{
    accumulator_set<double, features<droppable<tag::mean>, droppable<tag::max>, tag::count>, double> a_; relocated<decltype(a_)> c(a_); int at = vf_choice(5);
    bool M = true, X = true; double s = 0, w = 0, hi = -1e30; int n = 0, nx = 0;
    for (int i = 0; i < 5; ++i)
    {
        if (i && i == at) c.move();
        auto &a = c.get();
        int k = vf_choice(3);
        if (k == 0) { double x = vf_real_in(-1e30, 1e30), q = 0.5 + i; a(x, weight = q); ++n; if (M) { s += x * q; w += q; } if (X) { if (!nx || x > hi) hi = x; ++nx; } }
        if (k == 1) { vf_assume(M); M = false; a.drop<tag::mean>(); }
        if (k == 2) { vf_assume(X); X = false; a.drop<tag::max>(); }
    }
    auto &a = c.get();
    vf_assert(count(a) == (std::size_t)n, "count"); vf_eq(sum_of_weights(a), w, "weights"); vf_eq(weighted_sum(a), s, "sum");
    if (w != 0) vf_eq(mean(a), s / w, "mean"); if (nx) vf_eq((max)(a), hi, "max");
    vf_cover("end");
}
// @bound h_variance droppable lazy variance and droppable mean; the variance freezes only when all it needs has stopped; 5 steps; the history moves on to a copy of the set before any step
HARNESS(h_variance)
{
    accumulator_set<double, features<droppable<tag::variance(lazy)>, droppable<tag::mean>, droppable<tag::moment<2> > > > a_; relocated<decltype(a_)> c(a_); int at = vf_choice(5);
    bool V = true, M = true, Q = true; double s = 0, q = 0; int n = 0;
    for (int i = 0; i < 5; ++i)
    {
        if (i && i == at) c.move();
        auto &a = c.get();
        int k = vf_choice(4);
        if (k == 0) { double x = vf_real(); a(x); if (V || M) s += x; if (V || M || Q) ++n; if (V || Q) q += x * x; }
        if (k == 1) { vf_assume(V); V = false; a.drop<tag::variance>(); }
        if (k == 2) { vf_assume(M); M = false; a.drop<tag::mean>(); }
        if (k == 3) { vf_assume(Q); Q = false; a.drop<tag::moment<2> >(); }
    }
    auto &a = c.get();
    vf_eq(sum(a), s, "sum"); vf_assert(count(a) == (std::size_t)n, "count");
    if (n) { vf_eq(mean(a), s / n, "mean"); vf_eq(moment<2>(a), q / n, "moment"); vf_eq(variance(a), q / n - (s / n) * (s / n), "variance"); }
    vf_cover("end");
}

typedef tag::tail_variate<double, tag::covariate1, right> tv;
// @bound h_tail a droppable tail variate (its tail implicitly droppable) equals a plain one fed up to the drop; 4 steps, cache 2; the history moves on to a copy of the set before any step
HARNESS(h_tail)
{
    accumulator_set<double, features<droppable<tv>, droppable<tag::count> > > a_(tag::tail<right>::cache_size = 2); relocated<decltype(a_)> c(a_); int at = vf_choice(4);
    accumulator_set<double, features<tv> > r(tag::tail<right>::cache_size = 2);
    bool V = true, C = true; int n = 0;
    for (int i = 0; i < 4; ++i)
    {
        if (i && i == at) c.move();
        auto &a = c.get();
        int k = vf_choice(3);
        if (k == 0) { double x = vf_real(), y = vf_real(); a(x, covariate1 = y); if (V) r(x, covariate1 = y); if (C) ++n; }
        if (k == 1) { vf_assume(V); V = false; a.drop<tv>(); }
        if (k == 2) { vf_assume(C); C = false; a.drop<tag::count>(); }
    }
    auto &a = c.get();
    auto p = tail_variate(a), q = tail_variate(r); auto i = p.begin(), j = q.begin();
    for (; i != p.end() && j != q.end(); ++i, ++j) vf_eq(*i, *j, "variate");
    vf_assert(i == p.end() && j == q.end(), "size"); vf_assert(count(a) == (std::size_t)n, "count");
    auto t = tail(a), u = tail(r); auto v = t.begin(), w = u.begin();
    for (; v != t.end() && w != u.end(); ++v, ++w) vf_eq(*v, *w, "tail");
    vf_cover("end");
}
// @bound h_rolling a droppable rolling mean and rolling sum share a window; 5 steps, window 2; the history moves on to a copy of the set before any step
HARNESS(h_rolling)
{
    accumulator_set<double, features<droppable<tag::rolling_mean>, droppable<tag::rolling_sum> > > a_(tag::rolling_window::window_size = 2); relocated<decltype(a_)> c(a_); int at = vf_choice(5);
    accumulator_set<double, features<tag::rolling_mean> > m(tag::rolling_window::window_size = 2);
    accumulator_set<double, features<tag::rolling_sum> > s(tag::rolling_window::window_size = 2);
    bool M = true, S = true; int nm = 0;
    for (int i = 0; i < 5; ++i)
    {
        if (i && i == at) c.move();
        auto &a = c.get();
        int k = vf_choice(3);
        if (k == 0) { double x = vf_real(); a(x); if (M) { m(x); ++nm; } if (S) s(x); }
        if (k == 1) { vf_assume(M); M = false; a.drop<tag::rolling_mean>(); }
        if (k == 2) { vf_assume(S); S = false; a.drop<tag::rolling_sum>(); }
    }
    auto &a = c.get();
    vf_eq(rolling_sum(a), rolling_sum(s), "sum"); if (nm) vf_eq(rolling_mean(a), rolling_mean(m), "mean");
    vf_cover("end");
}
// weighted sets, samples and weights of different types: before the drop the plain statistics, after it what they were then
template<typename T, typename W> NOINLINE void mixed()
{
    accumulator_set<T, features<droppable<tag::mean>, droppable<tag::variance(lazy)>, droppable<tag::sum_of_weights> >, W> a;
    accumulator_set<T, features<droppable<tag::mean(immediate)>, droppable<tag::variance> >, W> b;
    accumulator_set<T, stats<tag::mean, tag::variance(lazy), tag::sum_of_weights>, W> r;
    accumulator_set<T, stats<tag::mean(immediate), tag::variance>, W> q;
    int at = 1 + vf_choice(3), n = 3;
    for (int i = 0; i < n; ++i)
    {
        if (i == at) { a.template drop<tag::mean>(); a.template drop<tag::lazy_weighted_variance>(); a.template drop<tag::sum_of_weights>(); b.template drop<tag::mean>(); b.template drop<tag::weighted_variance>(); }
        T x = fresh<T>(); W w = fresh<W>(); vf_assume(w > 0);
        a(x, weight = w); b(x, weight = w); if (i < at) { r(x, weight = w); q(x, weight = w); }
    }
    vf_eq(mean(a), mean(r), "mean"); vf_eq(variance(a), variance(r), "lazy_variance"); vf_eq((double)sum_of_weights(a), (double)sum_of_weights(r), "weights");
    vf_eq(mean(b), mean(q), "immediate_mean"); vf_eq(variance(b), variance(q), "variance");
    vf_cover("end");
}
// @bound h_weighted_mixed droppable mean and variance (lazy and immediate) and total weight in weighted sets, dropped after 1 or 2 of 3 samples or not at all: int samples with positive real weights, real samples with positive int weights
HARNESS(h_weighted_mixed) { if (vf_choice(2)) mixed<int, double>(); else mixed<double, int>(); }
