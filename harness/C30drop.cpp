#include "common.h"
#include "fresh.h"
#include <sstream>
#include <stdexcept>
#define BOOST_NUMERIC_FUNCTIONAL_STD_VECTOR_SUPPORT
#include <boost/accumulators/statistics/count.hpp>
#include <boost/accumulators/statistics/sum.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <boost/accumulators/statistics/density.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/accumulators/statistics/rolling_variance.hpp>
#include <boost/accumulators/statistics/tail_quantile.hpp>
#include <boost/accumulators/statistics/tail_variate.hpp>
#include <boost/accumulators/statistics/p_square_quantile.hpp>
#include <boost/accumulators/statistics/p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/extended_p_square.hpp>
#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
#include <boost/accumulators/statistics/weighted_p_square_quantile.hpp>
#include <boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp>
#include <boost/accumulators/statistics/weighted_extended_p_square.hpp>
#include <boost/accumulators/statistics/stats.hpp>
#include <boost/accumulators/statistics/variates/covariate.hpp>
using namespace boost::accumulators;
// pushes, reads, copies and drops in any order
// @bound h_drops droppable variance, rolling mean, tail quantile and density in one set; 4 steps, each a sample, a read, a drop, a copy or an assignment
HARNESS(h_drops)
{
    typedef accumulator_set<double, features<droppable<tag::variance(lazy)>, droppable<tag::rolling_mean>, droppable<tag::tail_quantile<left> >, droppable<tag::density> > > set;
    set a(tag::rolling_window::window_size = 2, tag::tail<left>::cache_size = 2, tag::density::cache_size = 1, tag::density::num_bins = 1);
    bool dv = false, dr = false, dt = false, dd = false; int n = 0; double s = 0;
    for (int i = 0; i < 4; ++i)
        switch (vf_choice(7))
        {
        case 0: a(vf_real_in(-1e30, 1e30)); ++n; break;
        case 1: if (!dv) { a.drop<tag::variance>(); dv = true; } break;
        case 2: if (!dr) { a.drop<tag::rolling_mean>(); dr = true; } break;
        case 3: if (!dt) { a.drop<tag::quantile>(); dt = true; } break;
        case 4: if (!dd) { a.drop<tag::density>(); dd = true; } break;
        case 5: { set b(a); b(1.); set c(b); c = a; s += rolling_mean(b) > 0; s += quantile(c, quantile_probability = 0.5) > 0; break; }
        default: s += variance(a) > 1; s += rolling_mean(a) > 0; s += quantile(a, quantile_probability = 0.5) > 0; if (n) s += density(a)[1].first > 0; break;
        }
    s += variance(a) > 1; s += rolling_mean(a) > 0; s += quantile(a, quantile_probability = 0.5) > 0;
    vf_assert(s < 100, "done");
    vf_cover("end");
}
// P-square estimators with fewer samples than markers
// @bound h_few 0..8 samples, the first ones fixed, one arbitrary; quantile, 1..4 cells, 1..3 probabilities, weighted and not; read after every sample
HARNESS(h_few)
{
    static double const pp[3] = { 0.25, 0.5, 0.75 }, fx[8] = { 3, 1, 4, 1, 5, 9, 2, 6 };
    int m = 1 + vf_choice(3), b = 1 + vf_choice(4), at = vf_choice(8); std::vector<double> p(pp, pp + m);
    accumulator_set<double, stats<tag::p_square_quantile> > q(quantile_probability = 0.3);
    accumulator_set<double, stats<tag::p_square_cumulative_distribution> > c(p_square_cumulative_distribution_num_cells = b);
    accumulator_set<double, stats<tag::extended_p_square> > e(extended_p_square_probabilities = p);
    accumulator_set<double, stats<tag::weighted_p_square_quantile>, double> wq(quantile_probability = 0.3);
    accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution>, double> wc(p_square_cumulative_distribution_num_cells = b);
    accumulator_set<double, stats<tag::weighted_extended_p_square>, double> we(extended_p_square_probabilities = p);
    double s = 0;
    for (int i = 0; i <= 8; ++i)
    {
        s += p_square_quantile(q) > 0; s += weighted_p_square_quantile(wq) > 0;
        auto r = p_square_cumulative_distribution(c); auto wr = weighted_p_square_cumulative_distribution(wc);
        for (int k = 0; k <= b; ++k) { s += r[k].first > 0; s += wr[k].first > 0; s += r[k].second > 0; s += wr[k].second > 0; }
        auto x = extended_p_square(e); auto wx = weighted_extended_p_square(we);
        for (int k = 0; k < m; ++k) { s += x[k] > 0; s += wx[k] > 0; }
        if (i == 8) break;
        double v = i == at ? vf_real_in(-100, 100) : fx[i]; q(v); c(v); e(v); wq(v, weight = 1. + i); wc(v, weight = 1. + i); we(v, weight = 1. + i);
    }
    vf_assert(s < 1000, "done");
    vf_cover("end");
}
// larger buffers than a short stream fills, and smaller ones than a long stream needs
// @bound h_sizes windows and caches of 1, 2, 5, 17 and 40, 30 samples, one arbitrary; copied half way
HARNESS(h_sizes)
{
    static int const sz[5] = { 1, 2, 5, 17, 40 };
    int k = sz[vf_choice(5)], at = vf_choice(2) ? 3 : 20; double s = 0;
    typedef accumulator_set<double, stats<tag::rolling_mean, tag::rolling_variance, tag::tail_quantile<right>, tag::density> > set;
    set a(tag::rolling_window::window_size = k, tag::tail<right>::cache_size = k, tag::density::cache_size = k, tag::density::num_bins = k);
    for (int i = 0; i < 30; ++i)
    {
        a(i == at ? vf_real_in(-100, 100) : (double)(i * 37 % 53));
        if (i == 14) { set b(a); b(2.); s += rolling_variance(b) > 0; set c(tag::rolling_window::window_size = 3, tag::tail<right>::cache_size = 4, tag::density::cache_size = 2, tag::density::num_bins = 2); c(1.); c = b; c(3.); s += rolling_mean(c) > 0; a = c; }
    }
    s += rolling_mean(a) > 0; s += rolling_variance(a) > 0; s += quantile(a, quantile_probability = 0.9) > 0;
    if (k < 40) { auto d = density(a); for (int i = 0; i < k + 2; ++i) { s += d[i].first > 0; s += d[i].second > 0; } }
    vf_assert(s < 1000, "done");
    vf_cover("end");
}
