#define BOOST_NUMERIC_FUNCTIONAL_STD_COMPLEX_SUPPORT
#include <complex>
#include <limits>
#include "common.h"
#include "fresh.h"
#include <boost/type_traits/is_same.hpp>
#include <boost/accumulators/numeric/functional.hpp>
#include <boost/accumulators/statistics/moment.hpp>
namespace num = boost::numeric;
template<typename T> struct is_int { enum { v = std::numeric_limits<T>::is_integer }; };
template<typename T> inline T v();
template<> inline double v<double>() { return vf_real(); }
template<> inline float v<float>() { return (float)vf_real(); }
template<> inline int v<int>() { return (int)vf_int(-1000, 1000); }
template<> inline long v<long>() { return vf_int(-100000, 100000); }
template<> inline short v<short>() { return (short)vf_int(-100, 100); }
template<> inline unsigned v<unsigned>() { return (unsigned)vf_int(0, 60000); }
template<> inline std::size_t v<std::size_t>() { return (std::size_t)vf_int(0, 60000); }
template<> inline unsigned char v<unsigned char>() { return (unsigned char)vf_int(0, 255); }
// a and b have compatible signedness, so the mathematical result is representable
template<typename A, typename B> NOINLINE void pairwise()
{
    A a = v<A>(); B b = v<B>(); double x = a, y = b; A const ca = a; B const cb = b;
    vf_eq(num::plus(a, b), x + y, "plus"); vf_eq(num::plus(ca, b), x + y, "plus_const"); vf_eq(num::plus(a, cb), x + y, "plus_const"); vf_eq(num::plus(ca, cb), x + y, "plus_const");
    vf_eq(num::multiplies(a, b), x * y, "multiplies");
    if (std::numeric_limits<A>::is_signed || !(x < y)) vf_eq(num::minus(a, b), x - y, "minus");
    vf_assert(num::less(a, b) == (x < y), "less"); vf_assert(num::less_equal(a, b) == (x <= y), "less_equal"); vf_assert(num::greater(a, b) == (x > y), "greater");
    vf_assert(num::greater_equal(a, b) == (x >= y), "greater_equal"); vf_assert(num::equal_to(a, b) == (x == y), "equal_to"); vf_assert(num::not_equal_to(a, b) == (x != y), "not_equal_to");
    A lo = a, hi = a; num::min_assign(lo, b); num::max_assign(hi, b);
    if (!is_int<A>::v || is_int<B>::v) { vf_eq(lo, x < y ? x : y, "min_assign"); vf_eq(hi, x < y ? y : x, "max_assign"); }
    if (!(b == 0))
    {
        vf_eq(num::fdiv(a, b), x / y, "fdiv"); vf_eq(num::fdiv(ca, cb), x / y, "fdiv_const"); vf_eq(num::average(a, b), x / y, "average");
        if (!(is_int<A>::v && is_int<B>::v)) vf_eq(num::divides(a, b), x / y, "divides");
    }
    A t = a; if (sizeof(A) >= 4 && (!is_int<A>::v || is_int<B>::v)) { num::plus_assign(t, b); vf_eq(t, x + y, "plus_assign"); }
    vf_cover("end");
}
// @bound h_double_double all values: binary operations, min/max assignment, floating division of double by double
HARNESS(h_double_double) { pairwise<double, double>(); }
// @bound h_int_int the same for int by int in [-1000,1000]
HARNESS(h_int_int) { pairwise<int, int>(); }
// @bound h_int_double the same for int by double
HARNESS(h_int_double) { pairwise<int, double>(); }
// @bound h_double_int the same for double by int
HARNESS(h_double_int) { pairwise<double, int>(); }
// @bound h_double_size the same for double by size_t
HARNESS(h_double_size) { pairwise<double, std::size_t>(); }
// @bound h_unsigned_size the same for unsigned by size_t
HARNESS(h_unsigned_size) { pairwise<unsigned, std::size_t>(); }
// @bound h_long_int the same for long by int
HARNESS(h_long_int) { pairwise<long, int>(); }
// @bound h_float_int the same for float by int
HARNESS(h_float_int) { pairwise<float, int>(); }
// @bound h_uchar_uchar the same for unsigned char by unsigned char
HARNESS(h_uchar_uchar) { pairwise<unsigned char, unsigned char>(); }
// @bound h_short_int the same for short by int
HARNESS(h_short_int) { pairwise<int, short>(); }
template<typename L, typename R> NOINLINE void quotient(L l, R r)
{
    vf_assert(boost::is_same<typename num::functional::fdiv<L, R>::result_type, double>::value, "fdiv_type"); vf_assert(sizeof(num::fdiv(l, r)) == sizeof(double), "fdiv_type");
    vf_assert(boost::is_same<typename num::functional::fdiv<L const, R const>::result_type, double>::value, "fdiv_type_const");
}
// @bound h_fdiv_type the quotient of two integers has the precision of double (5 x 5 integral types)
template<typename L> NOINLINE void quotients() { L l = 1; quotient(l, 1); quotient(l, 1u); quotient(l, 1L); quotient(l, std::size_t(1)); quotient(l, short(1)); }
HARNESS(h_fdiv_type) { quotients<int>(); quotients<unsigned>(); quotients<long>(); quotients<short>(); quotients<unsigned char>(); vf_cover("end"); }
// @bound h_fdiv_signed floating division of a negative int by a count (size_t): never truncated, never wrapped
HARNESS(h_fdiv_signed)
{
    int a = (int)vf_int(-2000000000, 2000000000); std::size_t n = (std::size_t)vf_int(1, 1L << 40); vf_eq(num::fdiv(a, n), (double)a / (double)(long)n, "fdiv");
    short s = v<short>(); vf_eq(num::fdiv(s, n), (double)s / (double)(long)n, "fdiv_short"); long l = vf_int(-(1L << 50), 1L << 50); vf_eq(num::fdiv(l, n), (double)l / (double)(long)n, "fdiv_long");
    int const ca = a; std::size_t const cn = n; vf_eq(num::fdiv(ca, cn), (double)a / (double)(long)n, "fdiv_const"); vf_eq(num::fdiv(ca, n), (double)a / (double)(long)n, "fdiv_const");
    vf_cover("end");
}
template<typename T> NOINLINE void limits()
{
    T x = v<T>(); T const cx = x; if (!is_int<T>::v) vf_assume(x >= -3e38 && x <= 3e38);   // a finite value of the type
    vf_assert(!(x < num::as_min(x)) && !(num::as_max(x) < x), "limits"); vf_assert(!(cx < num::as_min(cx)) && !(num::as_max(cx) < cx), "limits_const");
    vf_assert(num::as_min(x) == (std::numeric_limits<T>::lowest)() && num::as_max(x) == (std::numeric_limits<T>::max)(), "limit_values");
    vf_assert(num::as_zero(x) == T(0) && num::as_one(x) == T(1) && num::as_zero(cx) == T(0) && num::as_one(cx) == T(1), "zero_one");
    vf_assert(T(num::zero<T>()) == T(0) && num::zero<T>::value == T(0) && num::one<T>::value == T(1) && T(num::one<T>()) == T(1) && num::default_<T>::value == T(), "constants");
    vf_assert(num::one_or_default<T>::value == T(1) && num::zero_or_default<T>::value == T(0), "or_default");
    vf_eq(num::unary_plus(x), x, "unary_plus"); if (std::numeric_limits<T>::is_signed) vf_eq(num::unary_minus(x), -(double)x, "unary_minus"); vf_assert(num::logical_not(x) == (x == T(0)), "logical_not");
    T y = v<T>(); T &r = num::assign(y, x); vf_assert(&r == &y && y == x, "assign");
    vf_eq(num::promote<double>(x), x, "promote"); vf_eq(num::promote<double>(cx), x, "promote"); vf_eq(num::promote<T>(x), x, "promote_same"); vf_assert(&num::promote<T>(cx) == &cx, "promote_ref");
    vf_cover("end");
}
// @bound h_limits_double every double within 3e38: least and greatest value, zero, one, unary operations, assignment, promotion
HARNESS(h_limits_double) { limits<double>(); }
// @bound h_limits_float the same for float
HARNESS(h_limits_float) { limits<float>(); }
// @bound h_limits_int the same for int
HARNESS(h_limits_int) { limits<int>(); }
// @bound h_limits_unsigned the same for unsigned
HARNESS(h_limits_unsigned) { limits<unsigned>(); }
// @bound h_limits_long the same for long
HARNESS(h_limits_long) { limits<long>(); }
// @bound h_limits_size the same for size_t
HARNESS(h_limits_size) { limits<std::size_t>(); }
// @bound h_assign_ops every pair of doubles and of ints in [-1000,1000]: compound assignments return the left operand holding the result
HARNESS(h_assign_ops)
{
    double a = vf_real(), b = vf_real(), t; double const cb = b;
    t = a; vf_assert(&num::plus_assign(t, b) == &t, "ref"); vf_eq(t, a + b, "plus"); t = a; num::minus_assign(t, cb); vf_eq(t, a - b, "minus"); t = a; num::multiplies_assign(t, b); vf_eq(t, a * b, "multiplies");
    vf_assume(b != 0); t = a; vf_assert(&num::divides_assign(t, b) == &t, "ref"); vf_eq(t, a / b, "divides");
    int i = v<int>(), j = v<int>(), k; vf_assume(j > 0 && i >= 0);
    vf_assert(num::modulus(i, j) == i % j && num::divides(i, j) == i / j, "integer"); k = i; num::modulus_assign(k, j); vf_assert(k == i % j, "modulus_assign"); k = i; num::divides_assign(k, j); vf_assert(k == i / j, "divides_assign");
    k = i; num::multiplies_assign(k, j); vf_eq(k, (double)i * j, "multiplies_assign"); k = i; num::minus_assign(k, j); vf_eq(k, (double)i - j, "minus_assign");
    vf_assert(num::complement(i) == -i - 1, "complement");
    vf_cover("end");
}
// @bound h_pow powers 1..8 of every double, 1..4 of ints in [-30,30]
HARNESS(h_pow)
{
    double x = vf_real(), p = 1;
#define P(n) p *= x; vf_eq(num::pow(x, boost::mpl::int_<n>()), p, "pow");
    P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8)
#undef P
    int i = (int)vf_int(-30, 30); vf_eq(num::pow(i, boost::mpl::int_<1>()), i, "pow_int"); vf_eq(num::pow(i, boost::mpl::int_<2>()), (double)i * i, "pow_int"); vf_eq(num::pow(i, boost::mpl::int_<3>()), (double)i * i * i, "pow_int"); vf_eq(num::pow(i, boost::mpl::int_<4>()), (double)i * i * i * i, "pow_int");
    vf_cover("end");
}
typedef std::complex<double> Z;
static NOINLINE void zeq(Z const &a, double re, double im, char const *t) { vf_eq(a.real(), re, t); vf_eq(a.imag(), im, t); }
// @bound h_complex every complex number with every complex, double, int and size_t: arithmetic, floating division, one and zero
HARNESS(h_complex)
{
    using namespace boost::numeric::operators;
    double p = vf_real(), q = vf_real(), r = vf_real(), s = vf_real(); Z a(p, q), b(r, s); int i = v<int>(); std::size_t n = (std::size_t)vf_int(1, 60000);
    zeq(num::plus(a, b), p + r, q + s, "plus"); zeq(num::minus(a, b), p - r, q - s, "minus"); zeq(num::multiplies(a, b), p * r - q * s, p * s + q * r, "multiplies");
    zeq(num::multiplies(a, r), p * r, q * r, "by_double"); zeq(a * i, p * i, q * i, "by_int"); zeq(num::multiplies(a, i), p * i, q * i, "by_int"); zeq(num::multiplies(a, n), p * n, q * n, "by_size");
    zeq(num::fdiv(a, n), p / n, q / n, "fdiv_size"); Z const ca = a; zeq(num::fdiv(ca, n), p / n, q / n, "fdiv_size"); if (i != 0) { zeq(num::fdiv(a, i), p / i, q / i, "fdiv_int"); zeq(a / i, p / i, q / i, "over_int"); }
    if (r != 0) zeq(num::fdiv(a, r), p / r, q / r, "fdiv_double");
    zeq(num::unary_minus(a), -p, -q, "unary_minus"); zeq(num::as_zero(a), 0, 0, "zero"); zeq(num::zero<Z>::value, 0, 0, "zero");
    zeq(num::as_one(a), 1, 0, "one"); zeq(num::one<Z>::value, 1, 0, "one"); zeq(num::one<Z>(), 1, 0, "one"); zeq(a * num::one<Z>::value, p, q, "times_one");
    Z t = a; num::plus_assign(t, b); zeq(t, p + r, q + s, "plus_assign"); vf_assert(num::equal_to(a, b) == (p == r && q == s), "equal_to");
    zeq(num::promote<Z>(p), p, 0, "promote"); zeq(num::pow(a, boost::mpl::int_<3>()), p * p * p - 3 * p * q * q, 3 * p * p * q - q * q * q, "pow");
    vf_cover("end");
}
