#define GROUP_NONE
#include "C04.h"
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
using namespace boost::accumulators;
// Droppable statistics.  Whatever is dropped after loading is dropped in the loaded set as in the saved one.
typedef accumulator_set<double, features<droppable<tag::variance>, droppable<tag::immediate_mean>, tag::sum> > dset;
static NOINLINE void dsame(dset const &a, dset const &b)
{
    vf_eq(sum(a), sum(b), "sum"); vf_eq((double)count(a), (double)count(b), "count");
    vf_eq(extract_result<tag::immediate_mean>(a), extract_result<tag::immediate_mean>(b), "mean");
    vf_eq(extract_result<tag::variance>(a), extract_result<tag::variance>(b), "variance");
}
static NOINLINE void move_over(dset const &a, dset &b)
{
    store st; { oarchive o(st); const_cast<dset &>(a).serialize(o, 0); } { iarchive p(st); b.serialize(p, 0); vf_assert(p.n == st.n, "all_read"); }
}
// @bound h_undropped droppable variance and immediate mean with sum: 0..2 samples saved with nothing dropped, loaded, then either, both or none dropped in both sets, two more samples
HARNESS(h_undropped)
{
    dset a, b; int n = vf_choice(3), d = vf_choice(4);
    for (int i = 0; i < n; ++i) a(vf_real());
    move_over(a, b);
    double x = vf_real(), y = vf_real();
    a(x); b(x);
    if (d & 1) { a.drop<tag::variance>(); b.drop<tag::variance>(); }
    if (d & 2) { a.drop<tag::immediate_mean>(); b.drop<tag::immediate_mean>(); }
    a(y); b(y);
    dsame(a, b); vf_cover("end");
}
// @bound h_dropped_value the same set, something dropped before saving: the loaded set reports what the saved one does
HARNESS(h_dropped_value)
{
    dset a, b; int d = vf_choice(3);
    a(vf_real()); a(vf_real());
    if (d != 1) a.drop<tag::variance>();
    if (d != 0) a.drop<tag::immediate_mean>();
    a(vf_real());
    move_over(a, b); dsame(b, a); vf_cover("end");
}
// @bound h_dropped sum dropped before saving: the loaded set's sum stays where the saved one's does
HARNESS(h_dropped)
{
    accumulator_set<double, features<droppable<tag::sum>, tag::count> > a, b;
    a(vf_real()); a.drop<tag::sum>();
    store st; { oarchive o(st); a.serialize(o, 0); } { iarchive p(st); b.serialize(p, 0); vf_assert(p.n == st.n, "all_read"); }
    double x = vf_real(); a(x); b(x);
    vf_eq((double)count(b), (double)count(a), "count");
    vf_eq(sum(b), sum(a), "dropped_sum_revived");
    vf_cover("end");
}
