#include "C08.h"
static double const probs_[3] = { 0.25, 0.5, 0.875 };
// @bound h_median_psq tag::median(with_p_square_quantile) is tag::median: the same 7 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_median_psq)
{
    accumulator_set<double, stats<tag::median(with_p_square_quantile) >, void> a; accumulator_set<double, stats<tag::median >, void> b;
    both<void, 7, 96>(a, b);
    eq(median(a), extract_result<tag::median >(b));
    vf_cover("end");
}
// @bound h_median_density tag::median(with_density) is tag::with_density_median: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_median_density)
{
    accumulator_set<double, stats<tag::median(with_density) >, void> a(tag::density::cache_size = 4, tag::density::num_bins = 3); accumulator_set<double, stats<tag::with_density_median >, void> b(tag::density::cache_size = 4, tag::density::num_bins = 3);
    both<void, 6, 40>(a, b);
    eq(median(a), extract_result<tag::with_density_median >(b));
    vf_cover("end");
}
// @bound h_median_cdist tag::median(with_p_square_cumulative_distribution) is tag::with_p_square_cumulative_distribution_median: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_median_cdist)
{
    accumulator_set<double, stats<tag::median(with_p_square_cumulative_distribution) >, void> a(tag::p_square_cumulative_distribution::num_cells = 3); accumulator_set<double, stats<tag::with_p_square_cumulative_distribution_median >, void> b(tag::p_square_cumulative_distribution::num_cells = 3);
    both<void, 6, 48>(a, b);
    eq(median(a), extract_result<tag::with_p_square_cumulative_distribution_median >(b));
    vf_cover("end");
}
// @bound h_xq_linear tag::extended_p_square_quantile(linear) is tag::extended_p_square_quantile: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_xq_linear)
{
    accumulator_set<double, stats<tag::extended_p_square_quantile(linear) >, void> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::extended_p_square_quantile >, void> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<void, 11, 1536>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::extended_p_square_quantile >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_xq_quadratic tag::extended_p_square_quantile(quadratic) is tag::extended_p_square_quantile_quadratic: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_xq_quadratic)
{
    accumulator_set<double, stats<tag::extended_p_square_quantile(quadratic) >, void> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::extended_p_square_quantile_quadratic >, void> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<void, 11, 1536>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::extended_p_square_quantile_quadratic >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_density tag::density in a weighted set is tag::weighted_density: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_density)
{
    accumulator_set<double, stats<tag::density >, double> a(tag::density::cache_size = 4, tag::density::num_bins = 3); accumulator_set<double, stats<tag::weighted_density >, double> b(tag::density::cache_size = 4, tag::density::num_bins = 3);
    both<double, 6, 40>(a, b);
    eqr(density(a), extract_result<tag::weighted_density >(b));
    vf_cover("end");
}
// @bound h_w_psq tag::p_square_quantile in a weighted set is tag::weighted_p_square_quantile: the same 7 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_psq)
{
    accumulator_set<double, stats<tag::p_square_quantile >, double> a(quantile_probability = 0.3); accumulator_set<double, stats<tag::weighted_p_square_quantile >, double> b(quantile_probability = 0.3);
    both<double, 7, 96>(a, b);
    eq(p_square_quantile(a), extract_result<tag::weighted_p_square_quantile >(b));
    vf_cover("end");
}
// @bound h_w_cdist tag::p_square_cumulative_distribution in a weighted set is tag::weighted_p_square_cumulative_distribution: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_cdist)
{
    accumulator_set<double, stats<tag::p_square_cumulative_distribution >, double> a(tag::p_square_cumulative_distribution::num_cells = 3); accumulator_set<double, stats<tag::weighted_p_square_cumulative_distribution >, double> b(tag::p_square_cumulative_distribution::num_cells = 3);
    both<double, 6, 48>(a, b);
    eqr(p_square_cumulative_distribution(a), extract_result<tag::weighted_p_square_cumulative_distribution >(b));
    vf_cover("end");
}
// @bound h_w_ext tag::extended_p_square in a weighted set is tag::weighted_extended_p_square: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_ext)
{
    accumulator_set<double, stats<tag::extended_p_square >, double> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::weighted_extended_p_square >, double> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<double, 11, 1536>(a, b);
    eqr(extended_p_square(a), extract_result<tag::weighted_extended_p_square >(b));
    vf_cover("end");
}
// @bound h_w_median tag::median in a weighted set is tag::weighted_median: the same 7 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_median)
{
    accumulator_set<double, stats<tag::median >, double> a; accumulator_set<double, stats<tag::weighted_median >, double> b;
    both<double, 7, 96>(a, b);
    eq(median(a), extract_result<tag::weighted_median >(b));
    vf_cover("end");
}
// @bound h_w_median_psq tag::median(with_p_square_quantile) in a weighted set is tag::weighted_median: the same 7 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_median_psq)
{
    accumulator_set<double, stats<tag::median(with_p_square_quantile) >, double> a; accumulator_set<double, stats<tag::weighted_median >, double> b;
    both<double, 7, 96>(a, b);
    eq(median(a), extract_result<tag::weighted_median >(b));
    vf_cover("end");
}
// @bound h_w_median_density tag::median(with_density) in a weighted set is tag::with_density_weighted_median: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_median_density)
{
    accumulator_set<double, stats<tag::median(with_density) >, double> a(tag::density::cache_size = 4, tag::density::num_bins = 3); accumulator_set<double, stats<tag::with_density_weighted_median >, double> b(tag::density::cache_size = 4, tag::density::num_bins = 3);
    both<double, 6, 40>(a, b);
    eq(median(a), extract_result<tag::with_density_weighted_median >(b));
    vf_cover("end");
}
// @bound h_w_median_cdist tag::median(with_p_square_cumulative_distribution) in a weighted set is tag::with_p_square_cumulative_distribution_weighted_median: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_median_cdist)
{
    accumulator_set<double, stats<tag::median(with_p_square_cumulative_distribution) >, double> a(tag::p_square_cumulative_distribution::num_cells = 3); accumulator_set<double, stats<tag::with_p_square_cumulative_distribution_weighted_median >, double> b(tag::p_square_cumulative_distribution::num_cells = 3);
    both<double, 6, 48>(a, b);
    eq(median(a), extract_result<tag::with_p_square_cumulative_distribution_weighted_median >(b));
    vf_cover("end");
}
// @bound h_w_density_median tag::with_density_median in a weighted set is tag::with_density_weighted_median: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_density_median)
{
    accumulator_set<double, stats<tag::with_density_median >, double> a(tag::density::cache_size = 4, tag::density::num_bins = 3); accumulator_set<double, stats<tag::with_density_weighted_median >, double> b(tag::density::cache_size = 4, tag::density::num_bins = 3);
    both<double, 6, 40>(a, b);
    eq(with_density_median(a), extract_result<tag::with_density_weighted_median >(b));
    vf_cover("end");
}
// @bound h_w_cdist_median tag::with_p_square_cumulative_distribution_median in a weighted set is tag::with_p_square_cumulative_distribution_weighted_median: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_cdist_median)
{
    accumulator_set<double, stats<tag::with_p_square_cumulative_distribution_median >, double> a(tag::p_square_cumulative_distribution::num_cells = 3); accumulator_set<double, stats<tag::with_p_square_cumulative_distribution_weighted_median >, double> b(tag::p_square_cumulative_distribution::num_cells = 3);
    both<double, 6, 48>(a, b);
    eq(with_p_square_cumulative_distribution_median(a), extract_result<tag::with_p_square_cumulative_distribution_weighted_median >(b));
    vf_cover("end");
}
// @bound h_w_wmedian_psq tag::weighted_median(with_p_square_quantile) in a weighted set is tag::weighted_median: the same 7 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wmedian_psq)
{
    accumulator_set<double, stats<tag::weighted_median(with_p_square_quantile) >, double> a; accumulator_set<double, stats<tag::weighted_median >, double> b;
    both<double, 7, 96>(a, b);
    eq(weighted_median(a), extract_result<tag::weighted_median >(b));
    vf_cover("end");
}
// @bound h_w_wmedian_density tag::weighted_median(with_density) in a weighted set is tag::with_density_weighted_median: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wmedian_density)
{
    accumulator_set<double, stats<tag::weighted_median(with_density) >, double> a(tag::density::cache_size = 4, tag::density::num_bins = 3); accumulator_set<double, stats<tag::with_density_weighted_median >, double> b(tag::density::cache_size = 4, tag::density::num_bins = 3);
    both<double, 6, 40>(a, b);
    eq(weighted_median(a), extract_result<tag::with_density_weighted_median >(b));
    vf_cover("end");
}
// @bound h_w_wmedian_cdist tag::weighted_median(with_p_square_cumulative_distribution) in a weighted set is tag::with_p_square_cumulative_distribution_weighted_median: the same 6 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wmedian_cdist)
{
    accumulator_set<double, stats<tag::weighted_median(with_p_square_cumulative_distribution) >, double> a(tag::p_square_cumulative_distribution::num_cells = 3); accumulator_set<double, stats<tag::with_p_square_cumulative_distribution_weighted_median >, double> b(tag::p_square_cumulative_distribution::num_cells = 3);
    both<double, 6, 48>(a, b);
    eq(weighted_median(a), extract_result<tag::with_p_square_cumulative_distribution_weighted_median >(b));
    vf_cover("end");
}
// @bound h_w_xq tag::extended_p_square_quantile in a weighted set is tag::weighted_extended_p_square_quantile: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_xq)
{
    accumulator_set<double, stats<tag::extended_p_square_quantile >, double> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile >, double> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<double, 11, 1536>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::weighted_extended_p_square_quantile >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_xq_linear tag::extended_p_square_quantile(linear) in a weighted set is tag::weighted_extended_p_square_quantile: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_xq_linear)
{
    accumulator_set<double, stats<tag::extended_p_square_quantile(linear) >, double> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile >, double> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<double, 11, 1536>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::weighted_extended_p_square_quantile >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_xq_quadratic tag::extended_p_square_quantile(quadratic) in a weighted set is tag::weighted_extended_p_square_quantile_quadratic: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_xq_quadratic)
{
    accumulator_set<double, stats<tag::extended_p_square_quantile(quadratic) >, double> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile_quadratic >, double> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<double, 11, 1536>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::weighted_extended_p_square_quantile_quadratic >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_wxq tag::weighted_extended_p_square_quantile in a weighted set is tag::weighted_extended_p_square_quantile: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wxq)
{
    accumulator_set<double, stats<tag::weighted_extended_p_square_quantile >, double> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile >, double> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<double, 11, 1536>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::weighted_extended_p_square_quantile >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_wxq_linear tag::weighted_extended_p_square_quantile(linear) in a weighted set is tag::weighted_extended_p_square_quantile: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wxq_linear)
{
    accumulator_set<double, stats<tag::weighted_extended_p_square_quantile(linear) >, double> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile >, double> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<double, 11, 1536>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::weighted_extended_p_square_quantile >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_wxq_quadratic tag::weighted_extended_p_square_quantile(quadratic) in a weighted set is tag::weighted_extended_p_square_quantile_quadratic: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wxq_quadratic)
{
    accumulator_set<double, stats<tag::weighted_extended_p_square_quantile(quadratic) >, double> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile_quadratic >, double> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<double, 11, 1536>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::weighted_extended_p_square_quantile_quadratic >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_xqq tag::extended_p_square_quantile_quadratic in a weighted set is tag::weighted_extended_p_square_quantile_quadratic: the same 11 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_xqq)
{
    accumulator_set<double, stats<tag::extended_p_square_quantile_quadratic >, double> a(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3)); accumulator_set<double, stats<tag::weighted_extended_p_square_quantile_quadratic >, double> b(tag::extended_p_square::probabilities = std::vector<double>(probs_, probs_ + 3));
    both<double, 11, 1536>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::weighted_extended_p_square_quantile_quadratic >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_rolling_mean_lazy tag::rolling_mean(lazy) is tag::lazy_rolling_mean: the same 5 samples (5 arbitrary, with arbitrary variates) into both sets
HARNESS(h_rolling_mean_lazy)
{
    accumulator_set<double, stats<tag::rolling_mean(lazy) >, void> a(tag::rolling_window::window_size = 3); accumulator_set<double, stats<tag::lazy_rolling_mean >, void> b(tag::rolling_window::window_size = 3);
    both<void, 5, 31>(a, b);
    eq(rolling_mean(a), extract_result<tag::lazy_rolling_mean >(b));
    vf_cover("end");
}
// @bound h_rolling_mean_immediate tag::rolling_mean(immediate) is tag::immediate_rolling_mean: the same 5 samples (5 arbitrary, with arbitrary variates) into both sets
HARNESS(h_rolling_mean_immediate)
{
    accumulator_set<double, stats<tag::rolling_mean(immediate) >, void> a(tag::rolling_window::window_size = 3); accumulator_set<double, stats<tag::immediate_rolling_mean >, void> b(tag::rolling_window::window_size = 3);
    both<void, 5, 31>(a, b);
    eq(rolling_mean(a), extract_result<tag::immediate_rolling_mean >(b));
    vf_cover("end");
}
// @bound h_rolling_variance_lazy tag::rolling_variance(lazy) is tag::lazy_rolling_variance: the same 5 samples (5 arbitrary, with arbitrary variates) into both sets
HARNESS(h_rolling_variance_lazy)
{
    accumulator_set<double, stats<tag::rolling_variance(lazy) >, void> a(tag::rolling_window::window_size = 3); accumulator_set<double, stats<tag::lazy_rolling_variance >, void> b(tag::rolling_window::window_size = 3);
    both<void, 5, 31>(a, b);
    eq(rolling_variance(a), extract_result<tag::lazy_rolling_variance >(b));
    vf_cover("end");
}
// @bound h_rolling_variance_immediate tag::rolling_variance(immediate) is tag::immediate_rolling_variance: the same 5 samples (5 arbitrary, with arbitrary variates) into both sets
HARNESS(h_rolling_variance_immediate)
{
    accumulator_set<double, stats<tag::rolling_variance(immediate) >, void> a(tag::rolling_window::window_size = 3); accumulator_set<double, stats<tag::immediate_rolling_variance >, void> b(tag::rolling_window::window_size = 3);
    both<void, 5, 31>(a, b);
    eq(rolling_variance(a), extract_result<tag::immediate_rolling_variance >(b));
    vf_cover("end");
}
