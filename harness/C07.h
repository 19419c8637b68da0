// Non-scalar samples: every component of every result equals the statistic of the components.
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#include <vector>
#include <valarray>
#include <complex>
#include "common.h"
#include "fresh.h"
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/weighted_sum.hpp>
#include <boost/accumulators/statistics/weighted_mean.hpp>
#include <boost/accumulators/statistics/weighted_moment.hpp>
#include <boost/accumulators/statistics/weighted_variance.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
#include <boost/accumulators/statistics/rolling_sum.hpp>
#include <boost/accumulators/statistics/rolling_count.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_moment.hpp>
using namespace boost::accumulators;
enum { N = VF_T(3, 4), DMAX = 3 };
template<typename V> struct maker;
template<typename T> struct maker<std::vector<T> > { static std::vector<T> zeros(int d) { return std::vector<T>(d, T()); } };
template<typename T> struct maker<std::valarray<T> > { static std::valarray<T> zeros(int d) { return std::valarray<T>(T(), d); } };
template<typename T> inline T drawn() { return vf_real_in(-1e30, 1e30); }
template<> inline int drawn<int>() { return (int)vf_int(-100, 100); }
template<typename W> inline W drawn_weight() { W w = drawn<W>(); vf_assume(w > 0); return w; }
template<typename R> NOINLINE void size_is(R const &r, int d) { vf_assert((int)r.size() == d, "size"); }
