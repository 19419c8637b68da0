#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#define BOOST_UBLAS_NDEBUG 1     // ublas' own redundant result checks are not the subject; sizes are checked by the executor
#include "common.h"
#include "store.h"
#include "fresh.h"
#include <boost/accumulators/statistics/covariance.hpp>
#include <boost/accumulators/statistics/weighted_covariance.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
typedef std::vector<double> V;

// scalar sample and scalar variate of possibly different types
template<typename T, typename U> NOINLINE void scalar(int N)
{
    accumulator_set<T, stats<tag::covariance<U, tag::covariate1> > > a;
    accumulator_set<T, stats<tag::mean(immediate), tag::covariance<U, tag::covariate2> > > b;
    double xs[8], ys[8], sx = 0, sy = 0;
    int n = 1 + vf_choice(N);
    vf_eq(covariance(a), 0, "empty");
    for (int i = 0; i < n; ++i)
    {
        T x = fresh<T>(); U y = fresh<U>();
        xs[i] = (double)x; ys[i] = (double)y; sx += xs[i]; sy += ys[i];
        a(x, covariate1 = y); b(x, covariate2 = y, covariate1 = x);
        double mx = sx / (i + 1), my = sy / (i + 1), c = 0;
        for (int k = 0; k <= i; ++k) c += (xs[k] - mx) * (ys[k] - my);
        c /= i + 1;
        vf_eq(covariance(a), c, "covariance"); vf_eq(covariance(b), c, "covariance_imm_mean");
    }
    vf_cover("end");
}
// @bound h_dd 1..5 (thorough 8) pairs of reals
HARNESS(h_dd) { scalar<double, double>(VF_T(5, 8)); }
// @bound h_id 1..3 int samples with real variates
HARNESS(h_id) { scalar<int, double>(3); }
// @bound h_di 1..3 real samples with int variates
HARNESS(h_di) { scalar<double, int>(3); }
// @bound h_ii 1..3 int samples, int variates
HARNESS(h_ii) { scalar<int, int>(3); }

NOINLINE V vec(int d) { V v(d); for (int i = 0; i < d; ++i) v[i] = vf_real(); return v; }

// vector sample, scalar variate; scalar sample, vector variate
// @bound h_vd 1..4 vectors of dimension 1..3 with scalar variates
HARNESS(h_vd)
{
    int d = 1 + vf_choice(3);
    V zero(d, 0.0);
    accumulator_set<V, stats<tag::covariance<double, tag::covariate1> > > a(sample = zero);
    double sx[3] = {0}, sy = 0, sxy[3] = {0};
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        V x = vec(d); double y = vf_real();
        a(x, covariate1 = y);
        sy += y;
        V c = covariance(a);
        vf_assert(c.size() == (std::size_t)d, "size");
        for (int k = 0; k < d; ++k)
        {
            sx[k] += x[k]; sxy[k] += x[k] * y;
            vf_eq(c[k], sxy[k] / (i + 1) - sx[k] / (i + 1) * (sy / (i + 1)), "component");
        }
    }
    vf_cover("end");
}
// @bound h_dv 1..4 scalars with vector variates of dimension 1..3
HARNESS(h_dv)
{
    int d = 1 + vf_choice(3);
    V zero(d, 0.0);
    accumulator_set<double, stats<tag::covariance<V, tag::covariate1> > > a(covariate1 = zero);
    double sx = 0, sy[3] = {0}, sxy[3] = {0};
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        V y = vec(d); double x = vf_real();
        a(x, covariate1 = y);
        sx += x;
        V c = covariance(a);
        vf_assert(c.size() == (std::size_t)d, "size");
        for (int k = 0; k < d; ++k)
        {
            sy[k] += y[k]; sxy[k] += y[k] * x;
            vf_eq(c[k], sxy[k] / (i + 1) - sy[k] / (i + 1) * (sx / (i + 1)), "component");
        }
    }
    vf_cover("end");
}
// @bound h_vv 1..3 vectors of dimension 1..3 with vector variates of dimension 1..3
HARNESS(h_vv)
{
    int d = 1 + vf_choice(3), e = 1 + vf_choice(3);
    V zs(d, 0.0), zv(e, 0.0);
    accumulator_set<V, stats<tag::covariance<V, tag::covariate1> > > a(sample = zs, covariate1 = zv);
    double sx[3] = {0}, sy[3] = {0}, sxy[3][3] = {{0}};
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i)
    {
        V x = vec(d), y = vec(e);
        a(x, covariate1 = y);
        for (int k = 0; k < d; ++k) sx[k] += x[k];
        for (int j = 0; j < e; ++j) sy[j] += y[j];
        for (int j = 0; j < e; ++j) for (int k = 0; k < d; ++k) sxy[j][k] += y[j] * x[k];
        boost::numeric::ublas::matrix<double> c = covariance(a);
        vf_assert(c.size1() == (std::size_t)e && c.size2() == (std::size_t)d, "shape");
        for (int j = 0; j < e; ++j) for (int k = 0; k < d; ++k)
            vf_eq(c(j, k), sxy[j][k] / (i + 1) - sx[k] / (i + 1) * (sy[j] / (i + 1)), "entry");
    }
    vf_cover("end");
}
// symmetry of a vector with itself
// @bound h_sym 1..3 vectors of dimension 2, variate equal to the sample
HARNESS(h_sym)
{
    V z(2, 0.0);
    accumulator_set<V, stats<tag::covariance<V, tag::covariate1> > > a(sample = z, covariate1 = z);
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i) { V x = vec(2); a(x, covariate1 = x); }
    boost::numeric::ublas::matrix<double> c = covariance(a);
    vf_eq(c(0, 1), c(1, 0), "symmetric");
    vf_assert(c(0, 0) >= 0, "nonneg");
    vf_cover("end");
}
// weighted
// @bound h_weighted 1..4 pairs with positive weights
HARNESS(h_weighted)
{
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1> >, double> a;
    double W = 0, sx = 0, sy = 0, sxy = 0;
    int n = 1 + vf_choice(4);
    for (int i = 0; i < n; ++i)
    {
        double x = vf_real(), y = vf_real(), w = vf_real();
        vf_assume(w > 0);
        a(x, weight = w, covariate1 = y);
        W += w; sx += w * x; sy += w * y; sxy += w * x * y;
        vf_eq(covariance(a), sxy / W - sx / W * (sy / W), "covariance");
    }
    vf_cover("end");
}
// @bound h_weighted_vv 1..3 weighted vectors of dimension 1..2 with vector variates of dimension 1..3
HARNESS(h_weighted_vv)
{
    int d = 1 + vf_choice(2), e = 1 + vf_choice(3);
    V zs(d, 0.0), zv(e, 0.0);
    accumulator_set<V, stats<tag::covariance<V, tag::covariate1> >, double> a(sample = zs, covariate1 = zv);
    double W = 0, sx[3] = {0}, sy[3] = {0}, sxy[3][3] = {{0}};
    int n = 1 + vf_choice(3);
    for (int i = 0; i < n; ++i)
    {
        V x = vec(d), y = vec(e); double w = vf_real();
        vf_assume(w > 0);
        a(x, weight = w, covariate1 = y);
        W += w;
        for (int k = 0; k < d; ++k) sx[k] += w * x[k];
        for (int j = 0; j < e; ++j) sy[j] += w * y[j];
        for (int j = 0; j < e; ++j) for (int k = 0; k < d; ++k) sxy[j][k] += w * y[j] * x[k];
        boost::numeric::ublas::matrix<double> c = covariance(a);
        vf_assert(c.size1() == (std::size_t)e && c.size2() == (std::size_t)d, "shape");
        for (int j = 0; j < e; ++j) for (int k = 0; k < d; ++k)
            vf_eq(c(j, k), sxy[j][k] / W - sx[k] / W * (sy[j] / W), "entry");
    }
    vf_cover("end");
}
// long history
// @bound h_long_history 250 pairs, 2 arbitrary
HARNESS(h_long_history)
{
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1> > > a;
    double sx = 0, sy = 0, sxy = 0;
    for (int i = 0; i < 250; ++i)
    {
        bool f = i == 4 || i == 200;
        double x = f ? vf_real() : (double)(i % 5) - 2, y = f ? vf_real() : (double)(i % 7) - 3;
        a(x, covariate1 = y); sx += x; sy += y; sxy += x * y;
        if (i == 30 || i > 247) { double n = i + 1; vf_eq(covariance(a), sxy / n - sx / n * (sy / n), "covariance"); }
    }
    vf_cover("end");
}

// one more pair after any number of pairs with any means and any covariance
// @bound h_step any count in 2..2^40, any means and covariance, one arbitrary pair
HARNESS(h_step)
{
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1> > > a;
    a(3, covariate1 = 2); a(5, covariate1 = 7); a(11, covariate1 = 4);
    long n = vf_int(2, 1L << 40); double N = (double)n, mx = vf_real(), my = vf_real(), cv = vf_real(), x = vf_real(), y = vf_real();
    store st; { oarchive o(st); a.serialize(o, 0); } exactly(st, 4);
    double sx = 19, sy = 13, c0 = 85. / 3 - sx * sy / 9; int c = seekz(st, 3), i = seek(st, &sx, 1), j = seek(st, &sy, 1), k = seek(st, &c0, 1);
    st.z[c] = n; st.d[i] = N * mx; st.d[j] = N * my; st.d[k] = cv; put(a, st);
    vf_eq(covariance(a), cv, "restored");
    a(x, covariate1 = y);
    vf_eq(covariance(a), (N * (cv + mx * my) + x * y) / (N + 1) - (N * mx + x) / (N + 1) * ((N * my + y) / (N + 1)), "next");
    vf_cover("end");
}
// @bound h_step_weighted any total weight, any means and covariance, one arbitrary pair with any positive weight
HARNESS(h_step_weighted)
{
    accumulator_set<double, stats<tag::covariance<double, tag::covariate1> >, double> a;
    a(3, weight = 1, covariate1 = 2); a(5, weight = 2, covariate1 = 7); a(11, weight = 4, covariate1 = 4);
    double W = vf_real(), mx = vf_real(), my = vf_real(), cv = vf_real(), x = vf_real(), y = vf_real(), w = vf_real();
    vf_assume(W > 0 && w > 0); long n = vf_int(2, 1L << 40);
    store st; { oarchive o(st); a.serialize(o, 0); } exactly(st, 5);
    double w0 = 7, sx = 57, sy = 32, c0 = 252. / 7 - sx * sy / 49; int c = seekz(st, 3), q = seek(st, &w0, 1), i = seek(st, &sx, 1), j = seek(st, &sy, 1), k = seek(st, &c0, 1);
    st.z[c] = n; st.d[q] = W; st.d[i] = W * mx; st.d[j] = W * my; st.d[k] = cv; put(a, st);
    vf_eq(covariance(a), cv, "restored");
    a(x, weight = w, covariate1 = y);
    vf_eq(covariance(a), (W * (cv + mx * my) + w * x * y) / (W + w) - (W * mx + w * x) / (W + w) * ((W * my + w * y) / (W + w)), "next");
    vf_cover("end");
}
