#include "common.h"
#include "fresh.h"
#include <sstream>
#include <stdexcept>
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/moment.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/min.hpp>
#include <boost/accumulators/statistics/max.hpp>
#include <boost/accumulators/statistics/tail.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/tail_mean.hpp>
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/tail_variate_means.hpp>
#include <boost/accumulators/statistics/density.hpp>
#include <boost/accumulators/statistics/median.hpp>
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/extended_p_square.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;

typedef tag::tail_variate<double, tag::covariate1, right> tv;
typedef tag::absolute_tail_variate_means<right, double, tag::covariate1> tvm;
// @bound h_tail tail features in one set in two listings against single ones, cache 2..3, 3 reals with variates, two probabilities
template<typename A> NOINLINE void ttogether()
{
    int C = 2 + vf_choice(2); double p = vf_choice(2) ? 0.5 : 0.75;
    A a(tag::tail<right>::cache_size = C);
    accumulator_set<double, features<tag::tail_quantile<right> > > q(tag::tail<right>::cache_size = C);
    accumulator_set<double, features<tag::non_coherent_tail_mean<right> > > m(tag::tail<right>::cache_size = C);
    accumulator_set<double, features<tv> > v(tag::tail<right>::cache_size = C);
    for (int i = 0; i < 3; ++i) { double x = vf_real(), y = vf_real(); a(x, covariate1 = y); q(x); m(x); v(x, covariate1 = y); }
    vf_eq(quantile(a, quantile_probability = p), quantile(q, quantile_probability = p), "quantile");
    vf_eq(non_coherent_tail_mean(a, quantile_probability = p), non_coherent_tail_mean(m, quantile_probability = p), "mean");
    auto r = tail_variate(a), e = tail_variate(v); auto i = r.begin(); int n = 0;
    for (auto j = e.begin(); j != e.end() && i != r.end(); ++i, ++j, ++n) vf_eq(*i, *j, "variate");
    vf_assert(n == (C < 3 ? C : 3) && i == r.end(), "size"); vf_assert(count(a) == 3, "count");
    vf_cover("end");
}
HARNESS(h_tail)
{
    if (vf_choice(2)) ttogether<accumulator_set<double, stats<tag::count, tag::tail_quantile<right>, tag::non_coherent_tail_mean<right>, tv, tvm> > >();
    else ttogether<accumulator_set<double, stats<tvm, tv, tag::coherent_tail_mean<right>, tag::tail_quantile<right>, tag::min, tag::count> > >();
}
// @bound h_estimators P-square, density and median features in one set in two listings against single ones, 5 ordered reals then one more anywhere
template<typename A> NOINLINE void etogether()
{
    static double const pp[3] = { 0.25, 0.5, 0.75 }; std::vector<double> probs(pp, pp + 3);
    A a(quantile_probability = 0.5, extended_p_square_probabilities = probs, tag::density::cache_size = 4, tag::density::num_bins = 2, p_square_cumulative_distribution_num_cells = 4);
    accumulator_set<double, features<tag::p_square_quantile> > q(quantile_probability = 0.5);
    accumulator_set<double, features<tag::extended_p_square> > e(extended_p_square_probabilities = probs);
    accumulator_set<double, features<tag::p_square_cumulative_distribution> > c(p_square_cumulative_distribution_num_cells = 4);
    accumulator_set<double, features<tag::density> > d(tag::density::cache_size = 4, tag::density::num_bins = 2);
    accumulator_set<double, features<tag::median> > md;
    double prev = vf_real_in(-1e30, 1e30);
    for (int i = 0; i < 7; ++i)
    {
        double x = prev;
        if (i) { x = vf_real_in(-1e30, 1e30); if (i < 6) { vf_assume(x > prev); prev = x; } }
        a(x); q(x); e(x); c(x); d(x); md(x);
    }
    vf_eq(p_square_quantile(a), p_square_quantile(q), "p_square"); vf_eq(median(a), median(md), "median");
    for (int k = 0; k < 3; ++k) vf_eq(extended_p_square(a)[k], extended_p_square(e)[k], "extended");
    auto h = p_square_cumulative_distribution(a), g = p_square_cumulative_distribution(c);
    vf_assert(h.size() == g.size(), "size");
    for (int k = 0; k < (int)h.size(); ++k) { vf_eq(h[k].first, g[k].first, "cdf_x"); vf_eq(h[k].second, g[k].second, "cdf_y"); }
    auto u = density(a), w = density(d);
    vf_assert(u.size() == w.size(), "dsize");
    for (int k = 0; k < (int)u.size(); ++k) { vf_eq(u[k].first, w[k].first, "den_x"); vf_eq(u[k].second, w[k].second, "den_y"); }
    vf_cover("end");
}
HARNESS(h_estimators)
{
    if (vf_choice(2)) etogether<accumulator_set<double, stats<tag::p_square_quantile, tag::extended_p_square, tag::p_square_cumulative_distribution, tag::density, tag::median, tag::mean> > >();
    else etogether<accumulator_set<double, stats<tag::variance, tag::median, tag::density, tag::p_square_cumulative_distribution, tag::max, tag::extended_p_square, tag::p_square_quantile> > >();
}
