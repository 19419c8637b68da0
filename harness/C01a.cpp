#include "common.h"
#include "fresh.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;

// ------------------------------------------------------------------ probes: who is updated, when, with what
static int clk;
struct probe : accumulator_base
{
    typedef double result_type;
    int calls, at; double last, w, c1, c2; int hasw, has1, has2;
    template<typename Args> probe(Args const &) : calls(0), at(0), last(0), w(0), c1(0), c2(0), hasw(0), has1(0), has2(0) {}
    template<typename Args> void operator()(Args const &args)
    {
        ++calls; at = ++clk; last = args[sample];
        w = args[weight | -1.0]; c1 = args[covariate1 | -2.0]; c2 = args[covariate2 | -3.0];
    }
    result_type result(dont_care) const { return last; }
};
template<int N> struct probe_ : probe
{
    template<typename Args> probe_(Args const &a) : probe(a) {}
};
namespace boost { namespace accumulators { namespace tag {
#define PROBE(n, ...) struct p##n : depends_on<__VA_ARGS__> { typedef mpl::always<probe_<n> > impl; };
    //  chain   p1 <- p2 <- p3 <- p4 ; diamond p5 <- {p6, p7} <- p8 ; mixed p9 on {p3, p8}; p10 alone; p11 on p10, p4
    PROBE(1, ) PROBE(2, p1) PROBE(3, p2) PROBE(4, p3)
    PROBE(5, ) PROBE(6, p5) PROBE(7, p5) PROBE(8, p6, p7)
    PROBE(9, p3, p8) PROBE(10, ) PROBE(11, p10, p4)
    // q provides the feature p2 (an alternative with a dependency of its own), r depends on the feature p2
    PROBE(20, ) PROBE(21, p20) PROBE(22, p2)
}
template<> struct feature_of<tag::p21> : feature_of<tag::p2> {};
}}
template<typename F, typename A> probe const &pr(A const &a) { return find_accumulator<F>(a); }
template<typename F, typename A> NOINLINE void once(A const &a, int n, double x) { vf_assert(pr<F>(a).calls == n, "once"); vf_eq(pr<F>(a).last, x, "sample"); }
template<typename F, typename G, typename A> NOINLINE void before(A const &a) { vf_assert(pr<F>(a).at < pr<G>(a).at, "order"); }

template<typename S> NOINLINE void all11()
{
    S a;
    for (int i = 0; i < 2; ++i)
    {
        double x = vf_real(); clk = 0; a(x);
        once<tag::p1>(a, i + 1, x); once<tag::p2>(a, i + 1, x); once<tag::p3>(a, i + 1, x); once<tag::p4>(a, i + 1, x);
        once<tag::p5>(a, i + 1, x); once<tag::p6>(a, i + 1, x); once<tag::p7>(a, i + 1, x); once<tag::p8>(a, i + 1, x);
        once<tag::p9>(a, i + 1, x); once<tag::p10>(a, i + 1, x); once<tag::p11>(a, i + 1, x);
        vf_assert(clk == 11, "count");
        before<tag::p1, tag::p2>(a); before<tag::p2, tag::p3>(a); before<tag::p3, tag::p4>(a);
        before<tag::p5, tag::p6>(a); before<tag::p5, tag::p7>(a); before<tag::p6, tag::p8>(a); before<tag::p7, tag::p8>(a);
        before<tag::p3, tag::p9>(a); before<tag::p8, tag::p9>(a); before<tag::p10, tag::p11>(a); before<tag::p4, tag::p11>(a);
    }
    vf_cover("end");
}
// @bound h_order probe accumulators over a dependency graph of 11 features, five listings of the roots, any two samples
HARNESS(h_order)
{
    switch (vf_choice(5))
    {
    case 0: all11<accumulator_set<double, features<tag::p9, tag::p11> > >(); break;
    case 1: all11<accumulator_set<double, features<tag::p11, tag::p9> > >(); break;
    case 2: all11<accumulator_set<double, features<tag::p11, tag::p4, tag::p9, tag::p8, tag::p3, tag::p7, tag::p2, tag::p6, tag::p1, tag::p5, tag::p10> > >(); break;
    case 3: all11<accumulator_set<double, features<tag::p5, tag::p9, tag::p1, tag::p11> > >(); break;
    case 4: all11<accumulator_set<double, features<tag::p11, tag::p9, tag::p11, tag::p1> > >(); break;
    }
}
template<typename S> NOINLINE void alt()
{
    S a;
    for (int i = 0; i < 2; ++i)
    {
        double x = vf_real(); clk = 0; a(x);
        once<tag::p20>(a, i + 1, x); once<tag::p2>(a, i + 1, x); once<tag::p22>(a, i + 1, x);
        before<tag::p20, tag::p2>(a); before<tag::p2, tag::p22>(a);
    }
    vf_cover("end");
}
// @bound h_alternative an alternative provider of a feature with a dependency of its own, every listing order
HARNESS(h_alternative)
{
    switch (vf_choice(4))
    {
    case 0: alt<accumulator_set<double, features<tag::p22, tag::p21> > >(); break;
    case 1: alt<accumulator_set<double, features<tag::p21, tag::p22> > >(); break;
    case 2: alt<accumulator_set<double, features<tag::p22, tag::p21, tag::p20> > >(); break;
    case 3: alt<accumulator_set<double, features<tag::p20, tag::p22, tag::p21> > >(); break;
    }
}
// every way of passing the arguments reaches every accumulator with those arguments
// @bound h_args any sample, weight and covariates; positional and named forms, in different argument orders
HARNESS(h_args)
{
    accumulator_set<double, features<tag::p2, tag::p10>, double> a;
    double x = vf_real(), w = vf_real(), c = vf_real(), d = vf_real();
    int k = vf_choice(7); double ew = -1, e1 = -2, e2 = -3;
    switch (k)
    {
    case 0: a(x); break;
    case 1: a(sample = x); break;
    case 2: a(x, weight = w); ew = w; break;
    case 3: a(weight = w, sample = x); ew = w; break;
    case 4: a(x, weight = w, covariate1 = c); ew = w; e1 = c; break;
    case 5: a(x, covariate2 = d, covariate1 = c, weight = w); ew = w; e1 = c; e2 = d; break;
    case 6: a(covariate1 = c, sample = x, covariate2 = d); e1 = c; e2 = d; break;
    }
    vf_assert(pr<tag::p1>(a).calls == 1 && pr<tag::p2>(a).calls == 1 && pr<tag::p10>(a).calls == 1, "once");
    vf_eq(pr<tag::p1>(a).last, x, "x"); vf_eq(pr<tag::p2>(a).last, x, "x"); vf_eq(pr<tag::p10>(a).last, x, "x");
    vf_eq(pr<tag::p1>(a).w, ew, "w"); vf_eq(pr<tag::p2>(a).w, ew, "w"); vf_eq(pr<tag::p10>(a).w, ew, "w");
    vf_eq(pr<tag::p2>(a).c1, e1, "c1"); vf_eq(pr<tag::p10>(a).c1, e1, "c1");
    vf_eq(pr<tag::p2>(a).c2, e2, "c2"); vf_eq(pr<tag::p10>(a).c2, e2, "c2");
    vf_cover("end");
}

// a user-defined feature without a weighted flavor gets the weighted flavor of what it depends on, in working order
struct after_mean : accumulator_base
{
    typedef double result_type; double v;
    after_mean(dont_care) : v(0) {}
    template<typename Args> void operator()(Args const &args) { v = mean(args); }
    result_type result(dont_care) const { return v; }
};
namespace boost { namespace accumulators { namespace tag {
    struct am : depends_on<immediate_mean> { typedef mpl::always<after_mean> impl; };
    struct av : depends_on<variance> { typedef mpl::always<after_mean> impl; };
}}}
template<typename A, typename F> NOINLINE void user()
{
    A a; double s = 0, t = 0;
    for (int i = 0; i < 3; ++i)
    {
        double x = vf_real(), w = i == 1 ? 0.5 : i + 1; a(x, weight = w); s += x * w; t += w;
        vf_eq(mean(a), s / t, "mean"); vf_eq(extract_result<F>(a), s / t, "user");
    }
    vf_cover("end");
}
// @bound h_user user-defined features on the mean and variance in weighted sets, four listings, 3 reals
HARNESS(h_user)
{
    switch (vf_choice(4))
    {
    case 0: user<accumulator_set<double, stats<tag::am>, double>, tag::am>(); break;
    case 1: user<accumulator_set<double, stats<tag::am, tag::sum_of_weights>, double>, tag::am>(); break;
    case 2: user<accumulator_set<double, stats<tag::sum_of_weights, tag::am>, double>, tag::am>(); break;
    case 3: user<accumulator_set<double, stats<tag::av>, double>, tag::av>(); break;
    }
}
