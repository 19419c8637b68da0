// Names: a feature asked for by a short name, with a modifier, or by its unweighted name in a weighted set, is the documented variant.
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include <vector>
#include "common.h"
#include "fresh.h"
#include <boost/tuple/tuple.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_window.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
using namespace boost::accumulators;
inline void eq(double a, double b) { vf_eq(a, b, "same"); }
template<typename A, typename B> inline void eq(std::pair<A, B> const &a, std::pair<A, B> const &b) { eq(a.first, b.first); eq(a.second, b.second); }
template<typename A, typename B, typename C> inline void eq(boost::tuple<A, B, C> const &a, boost::tuple<A, B, C> const &b)
{
    eq(a.template get<0>(), b.template get<0>()); eq(a.template get<1>(), b.template get<1>()); eq(a.template get<2>(), b.template get<2>());
}
template<typename R, typename S> NOINLINE void eqr(R const &a, S const &b)
{
    auto i = a.begin(); auto j = b.begin();
    for (; i != a.end() && j != b.end(); ++i, ++j) eq(*i, *j);
    vf_assert(i == a.end() && j == b.end(), "same_size");
}
static double const wv[8] = { 2, 0.5, 3, 1, 0.25, 4, 1.5, 2 };
// the samples: arbitrary ones at the places AT (bit mask), the others concrete; the variate is arbitrary with the sample
template<int N, int AT> struct stream
{
    double x[N], y[N];
    stream() { for (int i = 0; i < N; ++i) { bool any = AT >> i & 1; x[i] = any ? vf_real_in(-1000, 1000) : (i * 7) % 11 - 3.5; y[i] = any ? vf_real_in(-1000, 1000) : i * 1.25 - 2; } }
};
template<typename W> struct feeder;
template<> struct feeder<void> { template<typename A, typename Y> static void push(A &a, double x, Y const &y, int) { a(x, covariate1 = y); } };
template<> struct feeder<double> { template<typename A, typename Y> static void push(A &a, double x, Y const &y, int i) { a(x, weight = wv[i % 8], covariate1 = y); } };
// feeds both sets the same stream
template<typename W, int N, int AT, typename A, typename B> NOINLINE void both(A &a, B &b)
{
    stream<N, AT> s;
    for (int i = 0; i < N; ++i) { feeder<W>::push(a, s.x[i], s.y[i], i); feeder<W>::push(b, s.x[i], s.y[i], i); }
}
template<typename W, int N, int AT, typename A, typename B> NOINLINE void both_v(A &a, B &b)      // vector variates
{
    stream<N, AT> s;
    for (int i = 0; i < N; ++i) { std::vector<double> v(2); v[0] = s.y[i]; v[1] = 3 - i; feeder<W>::push(a, s.x[i], v, i); feeder<W>::push(b, s.x[i], v, i); }
}
