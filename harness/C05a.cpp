#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/stats.hpp>
using namespace boost::accumulators;
// Probe accumulators count their updates.  A statistic must be updated by a sample exactly if some requested, not yet dropped
// feature is it or needs it.
struct probe : accumulator_base
{
    typedef double result_type; int calls; double last;
    probe(dont_care) : calls(0), last(0) {}
    template<typename Args> void operator()(Args const &args) { ++calls; last = args[sample]; }
    result_type result(dont_care) const { return last; }
};
template<int N> struct probe_ : probe { template<typename Args> probe_(Args const &a) : probe(a) {} };
namespace boost { namespace accumulators { namespace tag {
#define PROBE(n, ...) struct p##n : depends_on<__VA_ARGS__> { typedef mpl::always<probe_<n> > impl; };
    // p0 <- p1 <- p2 ; p0 <- p3 ; {p2, p3} <- p4 ; p5 alone; p6 on {p4, p5}
    PROBE(0, ) PROBE(1, p0) PROBE(2, p1) PROBE(3, p0) PROBE(4, p2, p3) PROBE(5, ) PROBE(6, p4, p5)
    // p7 provides the feature p2 but needs only p5
    PROBE(7, p5)
}
template<> struct feature_of<tag::p7> : feature_of<tag::p2> {};
}}
static bool const needs[7][7] = {          // needs[r][s]: r is or (transitively) needs s
    { 1, 0, 0, 0, 0, 0, 0 }, { 1, 1, 0, 0, 0, 0, 0 }, { 1, 1, 1, 0, 0, 0, 0 }, { 1, 0, 0, 1, 0, 0, 0 },
    { 1, 1, 1, 1, 1, 0, 0 }, { 0, 0, 0, 0, 0, 1, 0 }, { 1, 1, 1, 1, 1, 1, 1 } };
struct model
{
    bool root[7]; int calls[7]; double last[7];
    model() { for (int i = 0; i < 7; ++i) { root[i] = false; calls[i] = 0; last[i] = 0; } }
    bool alive(int s) const { for (int r = 0; r < 7; ++r) if (root[r] && needs[r][s]) return true; return false; }
    NOINLINE void push(double x) { for (int s = 0; s < 7; ++s) if (alive(s)) { ++calls[s]; last[s] = x; } }
};
template<typename F, typename A> NOINLINE void like(A const &a, model const &m, int s)
{
    vf_assert(((probe const &)find_accumulator<F>(a)).calls == m.calls[s], "updates"); vf_eq(extract_result<F>(a), m.last[s], "value");
}
// a set, or from some point on a copy of it (made by copy construction or by assignment)
template<typename A> struct relocated
{
    A *p; A *own; explicit relocated(A &a) : p(&a), own(0) {} ~relocated() { delete own; }
    A &get() { return *p; }
    void move() { if (vf_choice(2)) own = new A(*p); else { own = new A; *own = *p; } p = own; }
};
template<int F> struct tagof;
#define T(n) template<> struct tagof<n> { typedef tag::p##n type; };
T(0) T(1) T(2) T(3) T(4) T(5) T(6)
// D: up to three droppable roots (-1: none)
template<typename A, int D0, int D1, int D2, int TOP> NOINLINE void history(model m, int steps)
{
    A a_; relocated<A> c(a_); bool d0 = D0 >= 0, d1 = D1 >= 0, d2 = D2 >= 0;
    int at = vf_choice(steps);                                  // before this step the history moves on to a copy
    for (int i = 0; i < steps; ++i)
    {
        if (i && i == at) c.move();
        A &a = c.get();
        int k = vf_choice(4);
        if (k == 0) { double x = vf_real(); a(x); m.push(x); }
        else if (k == 1) { vf_assume(d0); d0 = false; m.root[D0 < 0 ? 0 : D0] = false; a.template drop<typename tagof<D0 < 0 ? TOP : D0>::type>(); }
        else if (k == 2) { vf_assume(d1); d1 = false; m.root[D1 < 0 ? 0 : D1] = false; a.template drop<typename tagof<D1 < 0 ? TOP : D1>::type>(); }
        else { vf_assume(d2); d2 = false; m.root[D2 < 0 ? 0 : D2] = false; a.template drop<typename tagof<D2 < 0 ? TOP : D2>::type>(); }
    }
    A &a = c.get();
    double x = vf_real(); a(x); m.push(x);
    A b(a);                                                     // a copy is dropped in the same places
    x = vf_real(); b(x); model mb = m; mb.push(x);
    like<tag::p0>(a, m, 0); like<tag::p1>(a, m, 1); like<tag::p2>(a, m, 2);
    like<tag::p0>(b, mb, 0); like<tag::p1>(b, mb, 1); like<tag::p2>(b, mb, 2);
    if (TOP >= 4) { like<typename tagof<TOP >= 4 ? 3 : 0>::type>(a, m, TOP >= 4 ? 3 : 0); like<typename tagof<TOP >= 4 ? 4 : 0>::type>(a, m, TOP >= 4 ? 4 : 0); }
    if (TOP >= 6) { like<typename tagof<TOP >= 6 ? 5 : 0>::type>(a, m, TOP >= 6 ? 5 : 0); like<typename tagof<TOP>::type>(a, m, TOP); like<typename tagof<TOP>::type>(b, mb, TOP); }
    vf_cover("end");
}
template<typename A, int D0, int D1, int D2, int TOP> NOINLINE void go(int r0, int r1, int r2, int r3)
{
    model m; int r[4] = { r0, r1, r2, r3 };
    for (int i = 0; i < 4; ++i) if (r[i] >= 0) m.root[r[i]] = true;
    history<A, D0, D1, D2, TOP>(m, VF_T(4, 6));
}
// @bound h_chain chain of three, every subset dropped in any order among samples, 4 (thorough 6) steps; the history moves on to a copy of the set before any step
HARNESS(h_chain)
{
    switch (vf_choice(4))
    {
    case 0: go<accumulator_set<double, features<droppable<tag::p2> > >, 2, -1, -1, 2>(2, -1, -1, -1); break;
    case 1: go<accumulator_set<double, features<droppable<tag::p0>, droppable<tag::p1>, droppable<tag::p2> > >, 0, 1, 2, 2>(0, 1, 2, -1); break;
    case 2: go<accumulator_set<double, features<tag::p1, droppable<tag::p2> > >, 2, -1, -1, 2>(1, 2, -1, -1); break;
    case 3: go<accumulator_set<double, features<droppable<tag::p2>, tag::p0, droppable<tag::p1> > >, 2, 1, -1, 2>(2, 0, 1, -1); break;
    }
}
// @bound h_diamond diamond of five in three configurations, 4 (thorough 6) steps; the history moves on to a copy of the set before any step
HARNESS(h_diamond)
{
    switch (vf_choice(3))
    {
    case 0: go<accumulator_set<double, features<droppable<tag::p4> > >, 4, -1, -1, 4>(4, -1, -1, -1); break;
    case 1: go<accumulator_set<double, features<droppable<tag::p4>, droppable<tag::p3>, droppable<tag::p0> > >, 4, 3, 0, 4>(4, 3, 0, -1); break;
    case 2: go<accumulator_set<double, features<tag::p3, droppable<tag::p4>, droppable<tag::p1> > >, 4, 1, -1, 4>(3, 4, 1, -1); break;
    }
}
// @bound h_two_tops two droppable features sharing everything below, 4 (thorough 6) steps; the history moves on to a copy of the set before any step
HARNESS(h_two_tops)
{
    if (vf_choice(2)) go<accumulator_set<double, features<droppable<tag::p6>, droppable<tag::p4>, droppable<tag::p5> > >, 6, 4, 5, 6>(6, 4, 5, -1);
    else go<accumulator_set<double, features<tag::p5, droppable<tag::p6>, droppable<tag::p2> > >, 6, 2, -1, 6>(5, 6, 2, -1);
}
// dropping a feature by its common name drops the dependencies of the accumulator that provides it
// @bound h_provider an alternative provider with other dependencies than the feature it provides, 4 steps
HARNESS(h_provider)
{
    accumulator_set<double, features<droppable<tag::p7>, droppable<tag::p0>, droppable<tag::p1> > > a;
    int n = 0, np = 0, n1 = 0, n0 = 0; bool alive = true, one = true;
    for (int i = 0; i < 4; ++i)
    {
        int k = vf_choice(3);
        if (k == 0) { a(1.0); ++n; if (alive) ++np; if (one) ++n1; ++n0; }
        else if (k == 1) { vf_assume(alive); alive = false; a.drop<tag::p2>(); }
        else { vf_assume(one); one = false; a.drop<tag::p1>(); }
    }
    vf_assert(((probe const &)find_accumulator<tag::p2>(a)).calls == np, "provider");
    vf_assert(((probe const &)find_accumulator<tag::p5>(a)).calls == np, "its_dependency");
    vf_assert(((probe const &)find_accumulator<tag::p1>(a)).calls == n1, "other");
    vf_assert(((probe const &)find_accumulator<tag::p0>(a)).calls == n0, "requested");
    vf_cover("end");
}
