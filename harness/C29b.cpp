#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_NUMERIC_FUNCTIONAL_STD_VALARRAY_SUPPORT
#include <vector>
#include <valarray>
#include <limits>
#include "common.h"
#include <boost/accumulators/numeric/functional.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/covariance.hpp>
namespace num = boost::numeric;
template<typename T> inline T v();
template<> inline double v<double>() { return vf_real_in(-1e30, 1e30); }
template<> inline int v<int>() { return (int)vf_int(-1000, 1000); }
// all dimensions up to 3 arbitrary; in larger ones the second and the last element
template<typename T> inline T elem(int i, int d) { return d <= 3 || i == 1 || i == d - 1 ? v<T>() : (T)((i * 7 % 11 + 1) * (i % 2 ? 1 : -1)); }
inline int dim() { static int const ds[6] = { 0, 1, 2, 3, 9, 20 }; return ds[vf_choice(6)]; }
template<typename V> struct mk;
template<typename T> struct mk<std::vector<T> > { static std::vector<T> of(int d) { std::vector<T> r(d); for (int i = 0; i < d; ++i) r[i] = elem<T>(i, d); return r; } };
template<typename T> struct mk<std::valarray<T> > { static std::valarray<T> of(int d) { std::valarray<T> r(d); for (int i = 0; i < d; ++i) r[i] = elem<T>(i, d); return r; } };
#define EACH(R, E, TAG) do { auto const &r_ = (R); vf_assert((int)r_.size() == d, TAG "_size"); for (int k = 0; k < d; ++k) vf_eq(r_[k], (E), TAG); } while (0)
// operations with vectors of the same element type
template<typename T, template<typename...> class C> NOINLINE void same_type()
{
    typedef C<T> V; int d = dim(); V const a = mk<V>::of(d), b = mk<V>::of(d);
    EACH(num::plus(a, b), (double)a[k] + b[k], "plus"); EACH(num::minus(a, b), (double)a[k] - b[k], "minus"); EACH(num::multiplies(a, b), (double)a[k] * b[k], "multiplies");
    V t = a; num::plus_assign(t, b); EACH(t, (double)a[k] + b[k], "plus_assign");
    V lo = a, hi = a; num::min_assign(lo, b); num::max_assign(hi, b); EACH(lo, a[k] < b[k] ? a[k] : b[k], "min_assign"); EACH(hi, a[k] < b[k] ? b[k] : a[k], "max_assign");
    EACH(num::as_zero(a), 0, "as_zero"); EACH(num::as_one(a), 1, "as_one"); EACH(num::as_min(a), (std::numeric_limits<T>::lowest)(), "as_min"); EACH(num::as_max(a), (std::numeric_limits<T>::max)(), "as_max");
    V m = a; EACH(num::as_min(m), (std::numeric_limits<T>::lowest)(), "as_min"); EACH(num::as_max(m), (std::numeric_limits<T>::max)(), "as_max");
    EACH(num::promote<V>(a), a[k], "promote_same"); EACH((num::promote<C<double> >(a)), a[k], "promote_double");
    vf_cover("end");
}
// @bound h_vector_double vectors of double, dimension 0..3, 9 and 20 (two elements arbitrary): element-wise arithmetic, min/max assignment, limits, zero, one, promotion
HARNESS(h_vector_double) { same_type<double, std::vector>(); }
// @bound h_vector_int the same for vectors of int
HARNESS(h_vector_int) { same_type<int, std::vector>(); }
// @bound h_valarray_double the same for valarrays of double
HARNESS(h_valarray_double) { same_type<double, std::valarray>(); }
// @bound h_valarray_int the same for valarrays of int
HARNESS(h_valarray_int) { same_type<int, std::valarray>(); }

template<typename V, typename S> NOINLINE void scaled()
{
    using namespace boost::numeric::operators;
    int d = dim(); V const a = mk<V>::of(d); S s = v<S>(); double x = s;
    EACH(num::multiplies(a, s), a[k] * x, "times"); EACH(a * s, a[k] * x, "times_op");
    if (x != 0) { EACH(num::fdiv(a, s), a[k] / x, "fdiv"); V b = a; S const cs = s; EACH(num::fdiv(b, cs), a[k] / x, "fdiv_const"); }
    std::size_t n = (std::size_t)vf_int(1, 60000); double y = (double)(long)n; EACH(num::fdiv(a, n), a[k] / y, "fdiv_size");
    vf_cover("end");
}
// @bound h_vector_scaled vectors of double by double: product and floating division, dimension 0..3, 9 and 20 (two elements arbitrary); floating division by a count
HARNESS(h_vector_scaled) { scaled<std::vector<double>, double>(); }
// @bound h_vector_scaled_int vectors of double by int
HARNESS(h_vector_scaled_int) { scaled<std::vector<double>, int>(); }
// @bound h_intvector_scaled vectors of int by double
HARNESS(h_intvector_scaled) { scaled<std::vector<int>, double>(); }
// @bound h_intvector_scaled_int vectors of int by int: floating division does not truncate
HARNESS(h_intvector_scaled_int) { scaled<std::vector<int>, int>(); }
// @bound h_valarray_scaled valarrays of double by double
HARNESS(h_valarray_scaled) { scaled<std::valarray<double>, double>(); }
// @bound h_valarray_scaled_int valarrays of double by int
HARNESS(h_valarray_scaled_int) { scaled<std::valarray<double>, int>(); }
// @bound h_intvalarray_scaled valarrays of int by double
HARNESS(h_intvalarray_scaled) { scaled<std::valarray<int>, double>(); }
// @bound h_intvalarray_scaled_int valarrays of int by int: floating division does not truncate
HARNESS(h_intvalarray_scaled_int) { scaled<std::valarray<int>, int>(); }
// @bound h_vector_mixed vector operators with different element types, scalar on either side, unary minus, division by vectors, powers, dimension 0..3, 9 and 20 (two elements arbitrary)
HARNESS(h_vector_mixed)
{
    using namespace boost::numeric::operators;
    int d = dim(); std::vector<double> const a = mk<std::vector<double> >::of(d); std::vector<int> const b = mk<std::vector<int> >::of(d); double s = vf_real(); int i = v<int>();
    EACH(a + b, a[k] + b[k], "plus"); EACH(b + a, a[k] + b[k], "plus"); EACH(a - b, a[k] - b[k], "minus"); EACH(b - a, b[k] - a[k], "minus"); EACH(a * b, a[k] * b[k], "multiplies"); EACH(b * a, a[k] * b[k], "multiplies");
    EACH(num::plus(a, b), a[k] + b[k], "plus"); EACH(num::multiplies(b, a), a[k] * b[k], "multiplies"); EACH(num::minus(b, a), b[k] - a[k], "minus");
    EACH(s * a, s * a[k], "scalar_left"); EACH(s * b, s * b[k], "scalar_left_int"); EACH(i * a, i * a[k], "int_left"); EACH(num::multiplies(s, a), s * a[k], "scalar_left"); EACH(a * i, i * a[k], "int_right");
    EACH(-a, -a[k], "unary_minus"); EACH(num::unary_minus(b), -(double)b[k], "unary_minus_int");
    if (s != 0) EACH(a / s, a[k] / s, "over"); if (s != 0) EACH(b / s, b[k] / s, "int_over");
    std::vector<double> c = mk<std::vector<double> >::of(d); for (int k = 0; k < d; ++k) vf_assume(c[k] != 0); EACH(a / c, a[k] / c[k], "over_vector"); EACH(num::divides(b, c), b[k] / c[k], "over_vector_int"); EACH(num::fdiv(a, c), a[k] / c[k], "fdiv_vector");
    EACH(num::pow(a, boost::mpl::int_<3>()), a[k] * a[k] * a[k], "pow");
    vf_cover("end");
}
// @bound h_valarray_mixed valarray operations with different element types and scalars on either side, expression templates, comparison promoted to bool, powers, dimension 0..3, 9 and 20 (two elements arbitrary)
HARNESS(h_valarray_mixed)
{
    using namespace boost::numeric::operators;
    int d = dim(); std::valarray<double> const a = mk<std::valarray<double> >::of(d), c = mk<std::valarray<double> >::of(d); std::valarray<int> const b = mk<std::valarray<int> >::of(d); double s = vf_real();
    EACH(num::plus(a, b), a[k] + b[k], "plus"); EACH(num::plus(b, a), a[k] + b[k], "plus"); EACH(a + b, a[k] + b[k], "plus_op");
    EACH(num::multiplies(a, s), a[k] * s, "scalar"); EACH(num::multiplies(s, a), a[k] * s, "scalar_left"); EACH(num::plus(a, s), a[k] + s, "plus_scalar"); EACH(num::minus(s, a), s - a[k], "minus_scalar");
    if (s != 0) EACH(num::divides(b, s), b[k] / s, "int_over");
    EACH(num::plus(a + c, c - a), 2 * c[k], "expressions"); EACH(num::multiplies(a + c, s), (a[k] + c[k]) * s, "expression_scalar"); EACH(num::promote<std::valarray<double> >(a * c), a[k] * c[k], "promote_expression");
    std::size_t n = (std::size_t)vf_int(1, 60000); double y = (double)(long)n; EACH(num::fdiv(a + c, n), (a[k] + c[k]) / y, "fdiv_expression");
    bool all = true, lt = true; for (int k = 0; k < d; ++k) { all = all && a[k] == c[k]; lt = lt && a[k] < c[k]; }
    vf_assert(num::promote<bool>(a == c) == all, "equal"); vf_assert(num::promote<bool>(a < c) == lt, "less");
    EACH(num::pow(a, boost::mpl::int_<3>()), a[k] * a[k] * a[k], "pow");
    vf_cover("end");
}
// @bound h_outer outer product: scalars, scalar and vector, vector pairs of dimensions 1, 2, 3, 8
HARNESS(h_outer)
{
    static int const ds[4] = { 1, 2, 3, 8 }; int d = ds[vf_choice(4)], e = ds[vf_choice(4)]; std::vector<double> const a = mk<std::vector<double> >::of(d); std::vector<double> const b = mk<std::vector<double> >::of(e); double s = vf_real(), t = vf_real();
    auto m = num::outer_product(a, b); vf_assert((int)m.size1() == d && (int)m.size2() == e, "shape");
    for (int i = 0; i < d; ++i) for (int j = 0; j < e; ++j) vf_eq(m(i, j), a[i] * b[j], "outer");
    EACH(num::outer_product(a, s), a[k] * s, "vector_scalar"); EACH(num::outer_product(s, a), a[k] * s, "scalar_vector"); vf_eq(num::outer_product(s, t), s * t, "scalars");
    vf_cover("end");
}
