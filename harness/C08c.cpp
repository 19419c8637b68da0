#include "C08.h"
typedef std::vector<double> V;
// @bound h_w_tq_left tag::tail_quantile<left> in a weighted set is tag::weighted_tail_quantile<left>: the same 5 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tq_left)
{
    accumulator_set<double, stats<tag::tail_quantile<left> >, double> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::weighted_tail_quantile<left> >, double> b(tag::tail<left>::cache_size = 5);
    both<double, 5, 12>(a, b);
    eq(quantile(a, quantile_probability = 0.4), extract_result<tag::weighted_tail_quantile<left> >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_tq_left tag::tail_quantile<left> is tag::tail_quantile<left>: the same 5 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_tq_left)
{
    accumulator_set<double, stats<tag::tail_quantile<left> >, void> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::tail_quantile<left> >, void> b(tag::tail<left>::cache_size = 5);
    both<void, 5, 12>(a, b);
    eq(quantile(a, quantile_probability = 0.4), tail_quantile(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_tm_left tag::coherent_tail_mean<left> is tag::coherent_tail_mean<left>: the same 5 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_tm_left)
{
    accumulator_set<double, stats<tag::tail_quantile<left>, tag::coherent_tail_mean<left> >, void> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::tail_quantile<left>, tag::coherent_tail_mean<left> >, void> b(tag::tail<left>::cache_size = 5);
    both<void, 5, 12>(a, b);
    eq(tail_mean(a, quantile_probability = 0.4), coherent_tail_mean(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_tm_left tag::non_coherent_tail_mean<left> in a weighted set is tag::non_coherent_weighted_tail_mean<left>: the same 5 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tm_left)
{
    accumulator_set<double, stats<tag::non_coherent_tail_mean<left> >, double> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::non_coherent_weighted_tail_mean<left> >, double> b(tag::tail<left>::cache_size = 5);
    both<double, 5, 12>(a, b);
    eq(non_coherent_tail_mean(a, quantile_probability = 0.4), non_coherent_weighted_tail_mean(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_tvm0_absolute_left tag::tail_variate_means<left, V, tag::covariate1>(absolute) is tag::absolute_tail_variate_means<left, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_tvm0_absolute_left)
{
    accumulator_set<double, stats<tag::tail_variate_means<left, V, tag::covariate1>(absolute) >, void> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::absolute_tail_variate_means<left, V, tag::covariate1> >, void> b(tag::tail<left>::cache_size = 5);
    both_v<void, 5, 8>(a, b);
    eqr(tail_variate_means(a, quantile_probability = 0.4), extract_result<tag::absolute_tail_variate_means<left, V, tag::covariate1> >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_tvm0_relative_left tag::tail_variate_means<left, V, tag::covariate1>(relative) is tag::relative_tail_variate_means<left, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_tvm0_relative_left)
{
    accumulator_set<double, stats<tag::tail_variate_means<left, V, tag::covariate1>(relative) >, void> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::relative_tail_variate_means<left, V, tag::covariate1> >, void> b(tag::tail<left>::cache_size = 5);
    both_v<void, 5, 8>(a, b);
    eqr(relative_tail_variate_means(a, quantile_probability = 0.4), extract_result<tag::relative_tail_variate_means<left, V, tag::covariate1> >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_peaks_over_threshold_value_left tag::peaks_over_threshold<left>(with_threshold_value) is tag::peaks_over_threshold<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_peaks_over_threshold_value_left)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<left>(with_threshold_value) >, void> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::peaks_over_threshold<left> >, void> b(pot_threshold_value = -1);
    both<void, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::peaks_over_threshold<left> >(b));
    vf_cover("end");
}
// @bound h_peaks_over_threshold_probability_left tag::peaks_over_threshold<left>(with_threshold_probability) is tag::peaks_over_threshold_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_peaks_over_threshold_probability_left)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<left>(with_threshold_probability) >, void> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::peaks_over_threshold_prob<left> >, void> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<void, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::peaks_over_threshold_prob<left> >(b));
    vf_cover("end");
}
// @bound h_pot_quantile_value_left tag::pot_quantile<left>(with_threshold_value) is tag::pot_quantile<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_pot_quantile_value_left)
{
    accumulator_set<double, stats<tag::pot_quantile<left>(with_threshold_value) >, void> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::pot_quantile<left> >, void> b(pot_threshold_value = -1);
    both<void, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.1), extract_result<tag::pot_quantile<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_pot_quantile_probability_left tag::pot_quantile<left>(with_threshold_probability) is tag::pot_quantile_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_pot_quantile_probability_left)
{
    accumulator_set<double, stats<tag::pot_quantile<left>(with_threshold_probability) >, void> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::pot_quantile_prob<left> >, void> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<void, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.1), extract_result<tag::pot_quantile_prob<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_pot_tail_mean_value_left tag::pot_tail_mean<left>(with_threshold_value) is tag::pot_tail_mean<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_pot_tail_mean_value_left)
{
    accumulator_set<double, stats<tag::pot_tail_mean<left>(with_threshold_value) >, void> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::pot_tail_mean<left> >, void> b(pot_threshold_value = -1);
    both<void, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.1), extract_result<tag::pot_tail_mean<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_pot_tail_mean_probability_left tag::pot_tail_mean<left>(with_threshold_probability) is tag::pot_tail_mean_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_pot_tail_mean_probability_left)
{
    accumulator_set<double, stats<tag::pot_tail_mean<left>(with_threshold_probability) >, void> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::pot_tail_mean_prob<left> >, void> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<void, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.1), extract_result<tag::pot_tail_mean_prob<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_w_tvm0_absolute_left tag::tail_variate_means<left, V, tag::covariate1>(absolute) in a weighted set is tag::absolute_weighted_tail_variate_means<left, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvm0_absolute_left)
{
    accumulator_set<double, stats<tag::tail_variate_means<left, V, tag::covariate1>(absolute) >, double> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::absolute_weighted_tail_variate_means<left, V, tag::covariate1> >, double> b(tag::tail<left>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(tail_variate_means(a, quantile_probability = 0.4), extract_result<tag::absolute_weighted_tail_variate_means<left, V, tag::covariate1> >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_tvm0_relative_left tag::tail_variate_means<left, V, tag::covariate1>(relative) in a weighted set is tag::relative_weighted_tail_variate_means<left, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvm0_relative_left)
{
    accumulator_set<double, stats<tag::tail_variate_means<left, V, tag::covariate1>(relative) >, double> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::relative_weighted_tail_variate_means<left, V, tag::covariate1> >, double> b(tag::tail<left>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(relative_tail_variate_means(a, quantile_probability = 0.4), extract_result<tag::relative_weighted_tail_variate_means<left, V, tag::covariate1> >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_tvm1_absolute_left tag::weighted_tail_variate_means<left, V, tag::covariate1>(absolute) in a weighted set is tag::absolute_weighted_tail_variate_means<left, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvm1_absolute_left)
{
    accumulator_set<double, stats<tag::weighted_tail_variate_means<left, V, tag::covariate1>(absolute) >, double> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::absolute_weighted_tail_variate_means<left, V, tag::covariate1> >, double> b(tag::tail<left>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(tail_variate_means(a, quantile_probability = 0.4), extract_result<tag::absolute_weighted_tail_variate_means<left, V, tag::covariate1> >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_tvm1_relative_left tag::weighted_tail_variate_means<left, V, tag::covariate1>(relative) in a weighted set is tag::relative_weighted_tail_variate_means<left, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvm1_relative_left)
{
    accumulator_set<double, stats<tag::weighted_tail_variate_means<left, V, tag::covariate1>(relative) >, double> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::relative_weighted_tail_variate_means<left, V, tag::covariate1> >, double> b(tag::tail<left>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(relative_tail_variate_means(a, quantile_probability = 0.4), extract_result<tag::relative_weighted_tail_variate_means<left, V, tag::covariate1> >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_tvmx_absolute_left tag::absolute_tail_variate_means<left, V, tag::covariate1> in a weighted set is tag::absolute_weighted_tail_variate_means<left, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvmx_absolute_left)
{
    accumulator_set<double, stats<tag::absolute_tail_variate_means<left, V, tag::covariate1> >, double> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::absolute_weighted_tail_variate_means<left, V, tag::covariate1> >, double> b(tag::tail<left>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(tail_variate_means(a, quantile_probability = 0.4), extract_result<tag::absolute_weighted_tail_variate_means<left, V, tag::covariate1> >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_tvmx_relative_left tag::relative_tail_variate_means<left, V, tag::covariate1> in a weighted set is tag::relative_weighted_tail_variate_means<left, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvmx_relative_left)
{
    accumulator_set<double, stats<tag::relative_tail_variate_means<left, V, tag::covariate1> >, double> a(tag::tail<left>::cache_size = 5); accumulator_set<double, stats<tag::relative_weighted_tail_variate_means<left, V, tag::covariate1> >, double> b(tag::tail<left>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(relative_tail_variate_means(a, quantile_probability = 0.4), extract_result<tag::relative_weighted_tail_variate_means<left, V, tag::covariate1> >(b, quantile_probability = 0.4));
    vf_cover("end");
}
// @bound h_w_peaks_over_threshold_value_left tag::peaks_over_threshold<left>(with_threshold_value) in a weighted set is tag::weighted_peaks_over_threshold<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_peaks_over_threshold_value_left)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<left>(with_threshold_value) >, double> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::weighted_peaks_over_threshold<left> >, double> b(pot_threshold_value = -1);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold<left> >(b));
    vf_cover("end");
}
// @bound h_ww_peaks_over_threshold_value_left tag::weighted_peaks_over_threshold<left>(with_threshold_value) in a weighted set is tag::weighted_peaks_over_threshold<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_peaks_over_threshold_value_left)
{
    accumulator_set<double, stats<tag::weighted_peaks_over_threshold<left>(with_threshold_value) >, double> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::weighted_peaks_over_threshold<left> >, double> b(pot_threshold_value = -1);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold<left> >(b));
    vf_cover("end");
}
// @bound h_wx_peaks_over_threshold_value_left tag::peaks_over_threshold<left> in a weighted set is tag::weighted_peaks_over_threshold<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_peaks_over_threshold_value_left)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<left> >, double> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::weighted_peaks_over_threshold<left> >, double> b(pot_threshold_value = -1);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold<left> >(b));
    vf_cover("end");
}
// @bound h_w_peaks_over_threshold_probability_left tag::peaks_over_threshold<left>(with_threshold_probability) in a weighted set is tag::weighted_peaks_over_threshold_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_peaks_over_threshold_probability_left)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<left>(with_threshold_probability) >, double> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::weighted_peaks_over_threshold_prob<left> >, double> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold_prob<left> >(b));
    vf_cover("end");
}
// @bound h_ww_peaks_over_threshold_probability_left tag::weighted_peaks_over_threshold<left>(with_threshold_probability) in a weighted set is tag::weighted_peaks_over_threshold_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_peaks_over_threshold_probability_left)
{
    accumulator_set<double, stats<tag::weighted_peaks_over_threshold<left>(with_threshold_probability) >, double> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::weighted_peaks_over_threshold_prob<left> >, double> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold_prob<left> >(b));
    vf_cover("end");
}
// @bound h_wx_peaks_over_threshold_probability_left tag::peaks_over_threshold_prob<left> in a weighted set is tag::weighted_peaks_over_threshold_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_peaks_over_threshold_probability_left)
{
    accumulator_set<double, stats<tag::peaks_over_threshold_prob<left> >, double> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::weighted_peaks_over_threshold_prob<left> >, double> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold_prob<left> >(b));
    vf_cover("end");
}
// @bound h_w_pot_quantile_value_left tag::pot_quantile<left>(with_threshold_value) in a weighted set is tag::weighted_pot_quantile<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_pot_quantile_value_left)
{
    accumulator_set<double, stats<tag::pot_quantile<left>(with_threshold_value) >, double> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::weighted_pot_quantile<left> >, double> b(pot_threshold_value = -1);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_quantile<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_ww_pot_quantile_value_left tag::weighted_pot_quantile<left>(with_threshold_value) in a weighted set is tag::weighted_pot_quantile<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_pot_quantile_value_left)
{
    accumulator_set<double, stats<tag::weighted_pot_quantile<left>(with_threshold_value) >, double> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::weighted_pot_quantile<left> >, double> b(pot_threshold_value = -1);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_quantile<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_wx_pot_quantile_value_left tag::pot_quantile<left> in a weighted set is tag::weighted_pot_quantile<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_pot_quantile_value_left)
{
    accumulator_set<double, stats<tag::pot_quantile<left> >, double> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::weighted_pot_quantile<left> >, double> b(pot_threshold_value = -1);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_quantile<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_w_pot_quantile_probability_left tag::pot_quantile<left>(with_threshold_probability) in a weighted set is tag::weighted_pot_quantile_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_pot_quantile_probability_left)
{
    accumulator_set<double, stats<tag::pot_quantile<left>(with_threshold_probability) >, double> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::weighted_pot_quantile_prob<left> >, double> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_quantile_prob<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_ww_pot_quantile_probability_left tag::weighted_pot_quantile<left>(with_threshold_probability) in a weighted set is tag::weighted_pot_quantile_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_pot_quantile_probability_left)
{
    accumulator_set<double, stats<tag::weighted_pot_quantile<left>(with_threshold_probability) >, double> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::weighted_pot_quantile_prob<left> >, double> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_quantile_prob<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_wx_pot_quantile_probability_left tag::pot_quantile_prob<left> in a weighted set is tag::weighted_pot_quantile_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_pot_quantile_probability_left)
{
    accumulator_set<double, stats<tag::pot_quantile_prob<left> >, double> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::weighted_pot_quantile_prob<left> >, double> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_quantile_prob<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_w_pot_tail_mean_value_left tag::pot_tail_mean<left>(with_threshold_value) in a weighted set is tag::weighted_pot_tail_mean<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_pot_tail_mean_value_left)
{
    accumulator_set<double, stats<tag::pot_tail_mean<left>(with_threshold_value) >, double> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::weighted_pot_tail_mean<left> >, double> b(pot_threshold_value = -1);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_tail_mean<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_ww_pot_tail_mean_value_left tag::weighted_pot_tail_mean<left>(with_threshold_value) in a weighted set is tag::weighted_pot_tail_mean<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_pot_tail_mean_value_left)
{
    accumulator_set<double, stats<tag::weighted_pot_tail_mean<left>(with_threshold_value) >, double> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::weighted_pot_tail_mean<left> >, double> b(pot_threshold_value = -1);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_tail_mean<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_wx_pot_tail_mean_value_left tag::pot_tail_mean<left> in a weighted set is tag::weighted_pot_tail_mean<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_pot_tail_mean_value_left)
{
    accumulator_set<double, stats<tag::pot_tail_mean<left> >, double> a(pot_threshold_value = -1); accumulator_set<double, stats<tag::weighted_pot_tail_mean<left> >, double> b(pot_threshold_value = -1);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_tail_mean<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_w_pot_tail_mean_probability_left tag::pot_tail_mean<left>(with_threshold_probability) in a weighted set is tag::weighted_pot_tail_mean_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_pot_tail_mean_probability_left)
{
    accumulator_set<double, stats<tag::pot_tail_mean<left>(with_threshold_probability) >, double> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::weighted_pot_tail_mean_prob<left> >, double> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_tail_mean_prob<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_ww_pot_tail_mean_probability_left tag::weighted_pot_tail_mean<left>(with_threshold_probability) in a weighted set is tag::weighted_pot_tail_mean_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_pot_tail_mean_probability_left)
{
    accumulator_set<double, stats<tag::weighted_pot_tail_mean<left>(with_threshold_probability) >, double> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::weighted_pot_tail_mean_prob<left> >, double> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_tail_mean_prob<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
// @bound h_wx_pot_tail_mean_probability_left tag::pot_tail_mean_prob<left> in a weighted set is tag::weighted_pot_tail_mean_prob<left>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_pot_tail_mean_probability_left)
{
    accumulator_set<double, stats<tag::pot_tail_mean_prob<left> >, double> a(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4); accumulator_set<double, stats<tag::weighted_pot_tail_mean_prob<left> >, double> b(tag::tail<left>::cache_size = 5, pot_threshold_probability = 0.4);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.1), extract_result<tag::weighted_pot_tail_mean_prob<left> >(b, quantile_probability = 0.1));
    vf_cover("end");
}
