// The contract with accumulators the user defines: constructed, fed, queried and dropped with everything the user passed, dependencies first.
#include "common.h"
#include "fresh.h"
#include <functional>
#include <boost/ref.hpp>
#include <boost/bind/bind.hpp>
#include <boost/parameter/keyword.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
using namespace boost::accumulators;
BOOST_PARAMETER_KEYWORD(kw, par_a)
BOOST_PARAMETER_KEYWORD(kw, par_b)
BOOST_PARAMETER_KEYWORD(kw, par_c)
BOOST_PARAMETER_KEYWORD(kw, par_d)
BOOST_PARAMETER_KEYWORD(kw, par_e)
BOOST_PARAMETER_KEYWORD(kw, par_f)
// what happened, in order
struct book_ { int n; int who[64]; char what[64]; void add(int w, char k) { if (n < 64) { who[n] = w; what[n] = k; } ++n; } };
static book_ book;
struct seen { double s, w, a, b, c, d, e, f; };
template<typename Args> seen look(Args const &x)
{
    seen r = { x[sample | -1.0], x[weight | -2.0], x[par_a | -3.0], x[par_b | -4.0], x[par_c | -5.0], x[par_d | -6.0], x[par_e | -7.0], x[par_f | -8.0] };
    return r;
}
static seen none() { seen r = { -1, -2, -3, -4, -5, -6, -7, -8 }; return r; }
NOINLINE void same(seen const &x, seen const &y, char const *tag)
{
    vf_eq(x.s, y.s, tag); vf_eq(x.w, y.w, tag); vf_eq(x.a, y.a, tag); vf_eq(x.b, y.b, tag); vf_eq(x.c, y.c, tag); vf_eq(x.d, y.d, tag); vf_eq(x.e, y.e, tag); vf_eq(x.f, y.f, tag);
}
struct probe : accumulator_base { seen made, fed; int calls, drops; double dep; probe() : made(), fed(), calls(0), drops(0), dep(0) {} };
// value of a dependency found in the set while constructing, feeding or reporting
template<typename Tag, typename Args> probe const &other(Args const &a) { return find_accumulator<Tag>(a[accumulator]); }
template<int N, typename D0, typename D1> struct probe_ : probe
{
    typedef double result_type;
    template<typename Args> probe_(Args const &a)
    {
        book.add(N, 'c'); made = look(a);
        vf_assert(other<D0>(a).calls == 0 && other<D1>(a).calls == 0, "dependency_built");
        dep = other<D0>(a).made.a + other<D1>(a).made.s;
    }
    template<typename Args> void operator()(Args const &a)
    {
        book.add(N, 'u'); ++calls; fed = look(a);
        vf_assert(other<D0>(a).calls == calls && other<D1>(a).calls == calls, "dependency_updated_before");
    }
    template<typename Args> result_type result(Args const &a) const { seen x = look(a); return 16 * fed.s + 8 * x.s + 4 * x.a + 2 * x.b + other<D0>(a).fed.s - other<D1>(a).fed.s + extract_result<D0>(a[accumulator]); }
    template<typename Args> void on_drop(Args const &a) { book.add(N, 'd'); ++drops; vf_assert(&other<D0>(a) != 0, "set_at_drop"); }
};
template<int N> struct leaf_ : probe
{
    typedef double result_type;
    template<typename Args> leaf_(Args const &a) { book.add(N, 'c'); made = look(a); }
    template<typename Args> void operator()(Args const &a) { book.add(N, 'u'); ++calls; fed = look(a); }
    template<typename Args> result_type result(Args const &a) const { return fed.s; }
    template<typename Args> void on_drop(Args const &) { book.add(N, 'd'); ++drops; }
};
namespace boost { namespace accumulators { namespace tag {
    struct p0 : depends_on<> { typedef mpl::always<leaf_<0> > impl; };
    struct p1 : depends_on<> { typedef mpl::always<leaf_<1> > impl; };
    struct p2 : depends_on<p0, p1> { typedef mpl::always<probe_<2, p0, p1> > impl; };
    struct p3 : depends_on<p2> { typedef mpl::always<probe_<3, p2, p2> > impl; };
    struct p4 : depends_on<p3, p0> { typedef mpl::always<probe_<4, p3, p0> > impl; };
} } }
NOINLINE int at(int w, char k) { int f = -1; for (int i = 0; i < 64 && i < book.n; ++i) if (book.who[i] == w && book.what[i] == k) { vf_assert(f < 0, "once"); f = i; } return f; }
// each of the first N probes exactly once, dependencies first, nothing else
NOINLINE void in_order(int n, char k)
{
    int p[5];
    vf_assert(book.n == n, "exactly_once_each");
    for (int i = 0; i < n; ++i) { p[i] = at(i, k); vf_assert(p[i] >= 0, "everyone"); }
    if (n > 2) vf_assert(p[0] < p[2] && p[1] < p[2], "dependencies_first");
    if (n > 3) vf_assert(p[2] < p[3], "dependencies_first"); if (n > 4) vf_assert(p[3] < p[4], "dependencies_first");
}
template<typename A> NOINLINE void all_made(A &a, seen const &x)
{
    in_order(5, 'c');
    same(((probe &)find_accumulator<tag::p0>(a)).made, x, "made"); same(((probe &)find_accumulator<tag::p1>(a)).made, x, "made"); same(((probe &)find_accumulator<tag::p2>(a)).made, x, "made");
    same(((probe &)find_accumulator<tag::p3>(a)).made, x, "made"); same(((probe &)find_accumulator<tag::p4>(a)).made, x, "made");
    vf_eq(((probe &)find_accumulator<tag::p2>(a)).dep, x.a + x.s, "dependency_at_construction"); vf_eq(((probe &)find_accumulator<tag::p4>(a)).dep, x.a + x.s, "dependency_at_construction");
}
template<typename A> NOINLINE void construct()
{
    seen x = none(); double v[7]; for (int i = 0; i < 7; ++i) v[i] = vf_real();
    book.n = 0;
    switch (vf_choice(9))
    {
    case 0: { A a; all_made(a, x); break; }
    case 1: { x.s = v[0]; A a(v[0]); all_made(a, x); break; }
    case 2: { x.s = v[0]; A a(sample = v[0]); all_made(a, x); break; }
    case 3: { x.a = v[0]; A a(par_a = v[0]); all_made(a, x); break; }
    case 4: { x.a = v[0]; x.b = v[1]; A a(par_b = v[1], par_a = v[0]); all_made(a, x); break; }
    case 5: { x.s = v[0]; x.b = v[1]; A a(v[0], par_b = v[1]); all_made(a, x); break; }
    case 6: { x.s = v[0]; x.a = v[1]; x.b = v[2]; A a(par_b = v[2], sample = v[0], par_a = v[1]); all_made(a, x); break; }
    case 7: { x.s = v[0]; x.a = v[1]; x.b = v[2]; x.c = v[3]; x.d = v[4]; x.e = v[5]; x.f = v[6]; A a(v[0], par_a = v[1], par_b = v[2], par_c = v[3], par_d = v[4], par_e = v[5], par_f = v[6]); all_made(a, x); break; }
    default: { x.s = v[0]; x.a = v[1]; x.b = v[2]; x.c = v[3]; x.d = v[4]; x.e = v[5]; x.f = v[6]; A a(par_f = v[6], par_d = v[4], par_e = v[5], par_c = v[3], par_b = v[2], sample = v[0], par_a = v[1]); all_made(a, x); break; }
    }
    vf_cover("end");
}
// @bound h_construct five accumulators with dependencies, requested by the topmost alone, in order or in reverse; constructed with every mix of up to 7 named and positional arguments of any value
HARNESS(h_construct)
{
    switch (vf_choice(3))
    {
    case 0: construct<accumulator_set<double, features<tag::p4> > >(); break;
    case 1: construct<accumulator_set<double, features<tag::p0, tag::p1, tag::p2, tag::p3, tag::p4> > >(); break;
    default: construct<accumulator_set<double, features<tag::p4, tag::p3, tag::p2, tag::p1, tag::p0> > >(); break;
    }
}
template<typename A> NOINLINE void all_fed(A &a, seen const &x, int k)
{
    in_order(5, 'u');
    same(((probe &)find_accumulator<tag::p0>(a)).fed, x, "fed"); same(((probe &)find_accumulator<tag::p1>(a)).fed, x, "fed"); same(((probe &)find_accumulator<tag::p2>(a)).fed, x, "fed");
    same(((probe &)find_accumulator<tag::p3>(a)).fed, x, "fed"); same(((probe &)find_accumulator<tag::p4>(a)).fed, x, "fed");
    vf_assert(((probe &)find_accumulator<tag::p4>(a)).calls == k, "calls");
}
template<typename A> NOINLINE void feed()
{
    A a;
    for (int k = 1; k <= 2; ++k)
    {
        seen x = none(); double v[8]; for (int i = 0; i < 8; ++i) v[i] = vf_real();
        book.n = 0;
        switch (vf_choice(9))
        {
        case 0: a(); break;
        case 1: x.s = v[0]; a(v[0]); break;
        case 2: x.s = v[0]; a(sample = v[0]); break;
        case 3: x.a = v[0]; a(par_a = v[0]); break;
        case 4: x.s = v[0]; x.w = v[1]; a(v[0], weight = v[1]); break;
        case 5: x.s = v[0]; x.w = v[1]; a(weight = v[1], sample = v[0]); break;
        case 6: x.s = v[0]; x.a = v[1]; x.b = v[2]; a(v[0], par_b = v[2], par_a = v[1]); break;
        case 7: x.s = v[0]; x.w = v[7]; x.a = v[1]; x.b = v[2]; x.c = v[3]; x.d = v[4]; x.e = v[5]; x.f = v[6]; a(v[0], par_a = v[1], par_b = v[2], weight = v[7], par_c = v[3], par_d = v[4], par_e = v[5], par_f = v[6]); break;
        default: x.s = v[0]; x.w = v[7]; x.a = v[1]; x.b = v[2]; x.c = v[3]; x.d = v[4]; x.e = v[5]; x.f = v[6]; a(par_f = v[6], par_d = v[4], par_e = v[5], weight = v[7], par_c = v[3], par_b = v[2], sample = v[0], par_a = v[1]); break;
        }
        all_fed(a, x, k);
    }
    vf_cover("end");
}
// @bound h_feed the same sets fed two samples with every mix of up to 8 named and positional arguments of any value
HARNESS(h_feed)
{
    switch (vf_choice(3))
    {
    case 0: feed<accumulator_set<double, features<tag::p4> > >(); break;
    case 1: feed<accumulator_set<double, features<tag::p0, tag::p1, tag::p2, tag::p3, tag::p4> > >(); break;
    default: feed<accumulator_set<double, features<tag::p4, tag::p3, tag::p2, tag::p1, tag::p0> > >(); break;
    }
}
// @bound h_result results through extract_result, an extractor object and an extractor defined by the user, with 0 to 3 arguments of any value, from a constant and a variable set
HARNESS(h_result)
{
    accumulator_set<double, features<tag::p4> > a; accumulator_set<double, features<tag::p4> > const &c = a;
    extractor<tag::p2> const ex = {};
    double s = vf_real(), q = vf_real(), u = vf_real(), v = vf_real();
    a(s);
    double base = 17 * s;                       // 16 s + (s - s) + the result of p0
    vf_eq(extract_result<tag::p2>(a), base - 8 - 12 - 8, "plain"); vf_eq(extract_result<tag::p2>(c), base - 28, "plain"); vf_eq(ex(a), base - 28, "plain"); vf_eq(ex(c), base - 28, "plain");
    vf_eq(extract_result<tag::p2>(a, q), base + 8 * q - 20, "positional"); vf_eq(ex(c, q), base + 8 * q - 20, "positional");
    vf_eq(extract_result<tag::p2>(c, par_a = q), base - 8 + 4 * q - 8, "named"); vf_eq(ex(a, par_a = q), base - 8 + 4 * q - 8, "named");
    vf_eq(extract_result<tag::p2>(a, par_b = q, par_a = u), base - 8 + 4 * u + 2 * q, "two"); vf_eq(ex(c, par_b = q, par_a = u), base - 8 + 4 * u + 2 * q, "two");
    vf_eq(extract_result<tag::p2>(a, v, par_b = q, par_a = u), base + 8 * v + 4 * u + 2 * q, "three"); vf_eq(ex(c, v, par_b = q, par_a = u), base + 8 * v + 4 * u + 2 * q, "three");
    vf_eq(ex(a, par_b = q, sample = v, par_a = u), base + 8 * v + 4 * u + 2 * q, "three");
    vf_assert(&find_accumulator<tag::p2>(a) == &find_accumulator<tag::p2>(c) && &find_accumulator<tag::p2>(a) == &a.extract<tag::p2>(), "same_accumulator");
    ((probe &)find_accumulator<tag::p2>(a)).fed.s = u;
    vf_eq(ex(a), 16 * u + s - 28, "through_the_accumulator");
    vf_cover("end");
}
// arguments given as temporaries: every accumulator sees what the caller passed, whatever the others do with it
struct box
{
    double v;
    box() : v(-1) {} explicit box(double x) : v(x) {}
    box(box const &o) : v(o.v) {} box &operator=(box const &o) { v = o.v; return *this; }
    box(box &&o) : v(o.v) { o.v = -99; } box &operator=(box &&o) { v = o.v; o.v = -99; return *this; }
};
template<int N> struct holder_ : accumulator_base
{
    typedef double result_type;
    box made, made_sample, fed, fed_sample;
    template<typename Args> holder_(Args const &a) : made(a[par_a | box()]), made_sample(a[sample | box()]) {}
    template<typename Args> void operator()(Args const &a) { fed = a[par_a | box()]; fed_sample = a[sample | box()]; }
    template<typename Args> result_type result(Args const &a) const { box x(a[par_a | box()]); return x.v + down(a, (boost::mpl::int_<N> *)0); }
    template<typename Args> double down(Args const &, boost::mpl::int_<0> *) const { return 0; }
    template<typename Args, int M> double down(Args const &a, boost::mpl::int_<M> *) const;
};
namespace boost { namespace accumulators { namespace tag {
    struct k0 : depends_on<> { typedef mpl::always<holder_<0> > impl; };
    struct k1 : depends_on<k0> { typedef mpl::always<holder_<1> > impl; };
    struct k2 : depends_on<k1> { typedef mpl::always<holder_<2> > impl; };
} } }
template<int N> struct hold_tag { typedef tag::k2 type; };
template<> struct hold_tag<0> { typedef tag::k0 type; };
template<> struct hold_tag<1> { typedef tag::k1 type; };
template<int N> template<typename Args, int M> double holder_<N>::down(Args const &a, boost::mpl::int_<M> *) const { return extractor<typename hold_tag<M - 1>::type>()(a); }
// @bound h_temporary three accumulators that take over their arguments, given temporaries of a movable type of any value, by name and by position, at construction, at two samples and at extraction
HARNESS(h_temporary)
{
    typedef accumulator_set<box, features<tag::k2> > A;
    double m = vf_real(), n = vf_real();
    bool both = vf_choice(2) != 0;
    A a = both ? A(par_a = box(m), sample = box(n)) : A(box(n), par_a = box(m));
    vf_eq(find_accumulator<tag::k0>(a).made.v, m, "made"); vf_eq(find_accumulator<tag::k1>(a).made.v, m, "made"); vf_eq(find_accumulator<tag::k2>(a).made.v, m, "made");
    vf_eq(find_accumulator<tag::k0>(a).made_sample.v, n, "made"); vf_eq(find_accumulator<tag::k1>(a).made_sample.v, n, "made"); vf_eq(find_accumulator<tag::k2>(a).made_sample.v, n, "made");
    A b(sample = box(n)); vf_eq(find_accumulator<tag::k0>(b).made_sample.v, n, "made"); vf_eq(find_accumulator<tag::k1>(b).made_sample.v, n, "made"); vf_eq(find_accumulator<tag::k2>(b).made_sample.v, n, "made");
    for (int k = 0; k < 2; ++k)
    {
        double x = vf_real(), y = vf_real();
        box named(x), positional(y);
        switch (vf_choice(4))
        {
        case 0: a(box(y), par_a = box(x)); break;
        case 1: a(par_a = box(x), sample = box(y)); break;
        case 2: a(positional, par_a = named); break;
        default: a(static_cast<box &&>(positional), par_a = static_cast<box &&>(named)); break;
        }
        vf_eq(find_accumulator<tag::k0>(a).fed.v, x, "fed"); vf_eq(find_accumulator<tag::k1>(a).fed.v, x, "fed"); vf_eq(find_accumulator<tag::k2>(a).fed.v, x, "fed");
        vf_eq(find_accumulator<tag::k0>(a).fed_sample.v, y, "fed"); vf_eq(find_accumulator<tag::k1>(a).fed_sample.v, y, "fed"); vf_eq(find_accumulator<tag::k2>(a).fed_sample.v, y, "fed");
    }
    double q = vf_real();
    vf_eq(extract_result<tag::k2>(a, par_a = box(q)), 3 * q, "queried"); vf_eq(extractor<tag::k1>()(a, par_a = box(q), sample = box(m)), 2 * q, "queried");
    vf_cover("end");
}
// visitation: in the order of updates, all of them or those a predicate selects
struct visitor { template<typename T> void operator()(T &t) const { book.add(t.id(), 'v'); } };
template<int N, typename D> struct plain_ : accumulator_base { typedef int result_type; int n; plain_(dont_care) : n(0) {} int id() const { return N; } result_type result(dont_care) const { return n; } };
namespace boost { namespace accumulators { namespace tag {
    struct q0 : depends_on<> { typedef mpl::always<plain_<0, void> > impl; };
    struct q1 : depends_on<> { typedef mpl::always<plain_<1, void> > impl; };
    struct q2 : depends_on<q0, q1> { typedef mpl::always<plain_<2, void> > impl; };
    struct q3 : depends_on<q2> { typedef mpl::always<plain_<3, void> > impl; };
} } }
struct odd { template<typename T> struct apply : boost::mpl::bool_<(boost::is_base_of<plain_<1, void>, T>::value || boost::is_base_of<plain_<3, void>, T>::value)> {}; };
// @bound h_visit visit and visit_if on a set of four accumulators with dependencies
HARNESS(h_visit)
{
    accumulator_set<double, features<tag::q3, tag::q1> > a;
    a(vf_real());
    book.n = 0; a.visit(visitor());
    vf_assert(book.n == 4, "all"); vf_assert(at(0, 'v') >= 0 && at(0, 'v') < at(2, 'v') && at(1, 'v') >= 0 && at(1, 'v') < at(2, 'v') && at(2, 'v') < at(3, 'v'), "in_order");
    book.n = 0; a.visit_if<odd>(visitor());
    vf_assert(book.n == 2 && at(1, 'v') == 0 && at(3, 'v') == 1, "selected_in_order");
    vf_cover("end");
}
// @bound h_drop on_drop runs once, when the accumulator stops, for droppable p4 and p2 with what they need; 6 steps of samples and drops
HARNESS(h_drop)
{
    accumulator_set<double, features<droppable<tag::p2>, droppable<tag::p4>, tag::p1> > a;
    bool d2 = false, d4 = false;
    for (int i = 0; i < 6; ++i)
    {
        int k = vf_choice(3); book.n = 0;
        if (k == 0) { a(vf_real()); vf_assert(book.n == (d4 ? (d2 ? 1 : 3) : 5), "who_is_fed"); }
        else if (k == 1) { vf_assume(!d2); d2 = true; a.drop<tag::p2>(); vf_assert(book.n == (d4 ? 2 : 0), "who_stops"); }
        else { vf_assume(!d4); d4 = true; a.drop<tag::p4>(); vf_assert(book.n == (d2 ? 4 : 2), "who_stops"); }
        vf_assert(((probe &)find_accumulator<tag::p4>(a)).drops == d4 && ((probe &)find_accumulator<tag::p3>(a)).drops == d4, "on_drop_top");
        vf_assert(((probe &)find_accumulator<tag::p2>(a)).drops == (d2 && d4) && ((probe &)find_accumulator<tag::p0>(a)).drops == (d2 && d4), "on_drop_shared");
        vf_assert(((probe &)find_accumulator<tag::p1>(a)).drops == 0, "kept");
    }
    vf_cover("end");
}
// a statistic whose droppable form remembers its result
template<typename R> void keep_set(R &r, double a, std::size_t b) { r.set(a, b); }
static void keep_set(double &r, double a, std::size_t b) { r = a + b; }
template<typename R> void keep_same(R const &r, double a, std::size_t b) { vf_eq(r.first(), a, "remembered_or_current"); vf_assert(r.second() == b, "remembered_or_current"); }
static void keep_same(double r, double a, std::size_t b) { vf_eq(r, a + b, "remembered_or_current"); }
template<typename R> struct keep_ : accumulator_base
{
    typedef R result_type;
    keep_(dont_care) {}
    template<typename Args> result_type result(Args const &a) const { R r; keep_set(r, sum(a[accumulator]), count(a[accumulator])); return r; }
};
struct plain_pair { double s; std::size_t n; void set(double a, std::size_t b) { s = a; n = b; } double first() const { return s; } std::size_t second() const { return n; } };
static int alive = 0;
struct counted { counted() { ++alive; } counted(counted const &) { ++alive; } ~counted() { --alive; } };
struct heap_pair { counted c; std::vector<double> v; void set(double a, std::size_t b) { v.push_back(a); v.push_back((double)b); } double first() const { return v[0]; } std::size_t second() const { return (std::size_t)v[1]; } };
namespace boost { namespace accumulators {
    namespace tag { template<typename R> struct keep : depends_on<sum, count> { typedef mpl::always<keep_<R> > impl; }; }
    template<typename R> struct droppable_accumulator<keep_<R> > : droppable_accumulator_base<with_cached_result<keep_<R> > >
    {
        template<typename Args> droppable_accumulator(Args const &args) : droppable_accumulator::base(args) {}
    };
} }
template<typename R> NOINLINE void cached()
{
    typedef accumulator_set<double, features<tag::sum, tag::count, droppable<tag::keep<R> > > > A;
    alive = 0; A *a = new A; double s = 0, ks = 0; std::size_t n = 0, kn = 0; bool d = false;
    for (int i = 0; i < 5; ++i)
    {
        int k = vf_choice(4);
        if (k == 0) { double x = vf_real(); (*a)(x); s += x; ++n; }
        else if (k == 1) { vf_assume(!d); d = true; ks = s; kn = n; a->template drop<tag::keep<R> >(); }
        else if (k == 2) { A *b = new A(*a); delete a; a = b; }
        R r = extract_result<tag::keep<R> >(*a);
        keep_same(r, d ? ks : s, d ? kn : n);
    }
    delete a;
    vf_assert(alive == 0, "remembered_result_destroyed");
    vf_cover("end");
}
// @bound h_cached a droppable statistic with a cached result (scalar pair): 5 steps of samples, the drop and moves to a copy
HARNESS(h_cached) { cached<plain_pair>(); }
// @bound h_cached_heap the same with a result that owns memory; every result is destroyed with the set
HARNESS(h_cached_heap) { cached<heap_pair>(); }
// @bound h_cached_scalar the same with a result of a built-in type
HARNESS(h_cached_scalar) { cached<double>(); }
// @bound h_algorithm 0..4 samples pushed by std::for_each, by value and assigned back, by boost::ref and bind, and one by one
HARNESS(h_algorithm)
{
    typedef accumulator_set<double, stats<tag::count, tag::sum, tag::mean> > A;
    double x[4]; int n = vf_choice(5); for (int i = 0; i < n; ++i) x[i] = vf_real();
    A a, b, c, d; double first = vf_real();
    a(first); b(first); c(first); d(first);
    a = std::for_each(x, x + n, a);
    std::for_each(x, x + n, boost::bind<void>(boost::ref(b), boost::placeholders::_1));
    std::for_each(x, x + n, std::ref(d));
    for (int i = 0; i < n; ++i) c(x[i]);
    vf_eq(sum(a), sum(c), "sum"); vf_eq(sum(b), sum(c), "sum"); vf_eq(sum(d), sum(c), "sum"); vf_assert(count(a) == n + 1u && count(b) == n + 1u && count(d) == n + 1u, "count"); vf_eq(mean(a), mean(c), "mean"); vf_eq(mean(b), mean(c), "mean");
    vf_cover("end");
}
// a user's statistic with a fast variant and a weighted one
template<typename S, typename M_> struct fubar_ : accumulator_base
{
    enum { M = M_::value }; typedef double result_type; double v; fubar_(dont_care) : v(0) {}
    template<typename Args> void operator()(Args const &a) { v += M * args_(a); }
    template<typename Args> static double args_(Args const &a) { return a[sample] * (M == 100 ? (double)a[weight | 1.0] : 1.0); }
    result_type result(dont_care) const { return v; }
};
template<typename S> struct user_ : accumulator_base { typedef double result_type; user_(dont_care) {} template<typename Args> result_type result(Args const &a) const; };
struct fast {}; struct accurate {};
namespace boost { namespace accumulators {
    namespace tag
    {
        struct fubar : depends_on<> { typedef fubar_<mpl::_1, mpl::int_<1> > impl; };
        struct fast_fubar : depends_on<count> { typedef fubar_<mpl::_1, mpl::int_<10> > impl; };
        struct weighted_fubar : depends_on<> { typedef fubar_<mpl::_1, mpl::int_<100> > impl; };
        struct uses_fubar : depends_on<fubar> { typedef user_<mpl::_1> impl; };
    }
    template<> struct feature_of<tag::fast_fubar> : feature_of<tag::fubar> {};
    template<> struct feature_of<tag::weighted_fubar> : feature_of<tag::fubar> {};
    template<> struct as_feature<tag::fubar(fast)> { typedef tag::fast_fubar type; };
    template<> struct as_feature<tag::fubar(accurate)> { typedef tag::fubar type; };
    template<> struct as_weighted_feature<tag::fubar> { typedef tag::weighted_fubar type; };
    namespace extract { extractor<tag::fubar> const fubar = {}; extractor<tag::uses_fubar> const uses_fubar = {}; }
} }
template<typename S> template<typename Args> double user_<S>::result(Args const &a) const { return extract::fubar(a[accumulator]) + 0.5; }
// @bound h_variants a user's feature with a fast variant (feature_of, as_feature), a weighted one (as_weighted_feature) and a statistic that depends on the feature; 3 samples of any value
HARNESS(h_variants)
{
    accumulator_set<double, features<tag::uses_fubar> > a; accumulator_set<double, features<tag::uses_fubar, tag::fubar(fast)> > b; accumulator_set<double, features<tag::fubar(fast), tag::uses_fubar> > c;
    accumulator_set<double, features<tag::fubar(accurate), tag::uses_fubar> > d; accumulator_set<double, features<tag::uses_fubar>, double> e; accumulator_set<double, features<tag::fubar>, double> f;
    double s = 0, w = 0;
    for (int i = 0; i < 3; ++i) { double x = vf_real(), q = i + 0.5; a(x); b(x); c(x); d(x); e(x, weight = q); f(x, weight = q); s += x; w += x * q; }
    vf_eq(extract::fubar(a), s, "default"); vf_eq(extract::uses_fubar(a), s + 0.5, "default");
    vf_eq(extract::fubar(b), 10 * s, "fast"); vf_eq(extract::uses_fubar(b), 10 * s + 0.5, "fast_satisfies"); vf_eq(extract::fubar(c), 10 * s, "fast"); vf_eq(extract::uses_fubar(c), 10 * s + 0.5, "fast_satisfies");
    vf_eq(extract_result<tag::fast_fubar>(b), 10 * s, "fast"); vf_assert(extract_result<tag::count>(c) == 3, "fast_dependencies");
    vf_eq(extract::fubar(d), s, "accurate"); vf_eq(extract::uses_fubar(d), s + 0.5, "accurate");
    vf_eq(extract::fubar(f), 100 * w, "weighted"); vf_eq(extract::fubar(e), 100 * w, "weighted"); vf_eq(extract::uses_fubar(e), 100 * w + 0.5, "weighted_satisfies");
    vf_cover("end");
}
