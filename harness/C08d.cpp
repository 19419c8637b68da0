#include "C08.h"
typedef std::vector<double> V;
// @bound h_w_tq_right tag::tail_quantile<right> in a weighted set is tag::weighted_tail_quantile<right>: the same 5 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tq_right)
{
    accumulator_set<double, stats<tag::tail_quantile<right> >, double> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::weighted_tail_quantile<right> >, double> b(tag::tail<right>::cache_size = 5);
    both<double, 5, 12>(a, b);
    eq(quantile(a, quantile_probability = 0.6), extract_result<tag::weighted_tail_quantile<right> >(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_tq_right tag::tail_quantile<right> is tag::tail_quantile<right>: the same 5 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_tq_right)
{
    accumulator_set<double, stats<tag::tail_quantile<right> >, void> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::tail_quantile<right> >, void> b(tag::tail<right>::cache_size = 5);
    both<void, 5, 12>(a, b);
    eq(quantile(a, quantile_probability = 0.6), tail_quantile(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_tm_right tag::coherent_tail_mean<right> is tag::coherent_tail_mean<right>: the same 5 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_tm_right)
{
    accumulator_set<double, stats<tag::tail_quantile<right>, tag::coherent_tail_mean<right> >, void> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::tail_quantile<right>, tag::coherent_tail_mean<right> >, void> b(tag::tail<right>::cache_size = 5);
    both<void, 5, 12>(a, b);
    eq(tail_mean(a, quantile_probability = 0.6), coherent_tail_mean(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_w_tm_right tag::non_coherent_tail_mean<right> in a weighted set is tag::non_coherent_weighted_tail_mean<right>: the same 5 samples (2 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tm_right)
{
    accumulator_set<double, stats<tag::non_coherent_tail_mean<right> >, double> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::non_coherent_weighted_tail_mean<right> >, double> b(tag::tail<right>::cache_size = 5);
    both<double, 5, 12>(a, b);
    eq(non_coherent_tail_mean(a, quantile_probability = 0.6), non_coherent_weighted_tail_mean(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_tvm0_absolute_right tag::tail_variate_means<right, V, tag::covariate1>(absolute) is tag::absolute_tail_variate_means<right, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_tvm0_absolute_right)
{
    accumulator_set<double, stats<tag::tail_variate_means<right, V, tag::covariate1>(absolute) >, void> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::absolute_tail_variate_means<right, V, tag::covariate1> >, void> b(tag::tail<right>::cache_size = 5);
    both_v<void, 5, 8>(a, b);
    eqr(tail_variate_means(a, quantile_probability = 0.6), extract_result<tag::absolute_tail_variate_means<right, V, tag::covariate1> >(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_tvm0_relative_right tag::tail_variate_means<right, V, tag::covariate1>(relative) is tag::relative_tail_variate_means<right, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_tvm0_relative_right)
{
    accumulator_set<double, stats<tag::tail_variate_means<right, V, tag::covariate1>(relative) >, void> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::relative_tail_variate_means<right, V, tag::covariate1> >, void> b(tag::tail<right>::cache_size = 5);
    both_v<void, 5, 8>(a, b);
    eqr(relative_tail_variate_means(a, quantile_probability = 0.6), extract_result<tag::relative_tail_variate_means<right, V, tag::covariate1> >(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_peaks_over_threshold_value_right tag::peaks_over_threshold<right>(with_threshold_value) is tag::peaks_over_threshold<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_peaks_over_threshold_value_right)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<right>(with_threshold_value) >, void> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::peaks_over_threshold<right> >, void> b(pot_threshold_value = 1);
    both<void, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::peaks_over_threshold<right> >(b));
    vf_cover("end");
}
// @bound h_peaks_over_threshold_probability_right tag::peaks_over_threshold<right>(with_threshold_probability) is tag::peaks_over_threshold_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_peaks_over_threshold_probability_right)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<right>(with_threshold_probability) >, void> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::peaks_over_threshold_prob<right> >, void> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<void, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::peaks_over_threshold_prob<right> >(b));
    vf_cover("end");
}
// @bound h_pot_quantile_value_right tag::pot_quantile<right>(with_threshold_value) is tag::pot_quantile<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_pot_quantile_value_right)
{
    accumulator_set<double, stats<tag::pot_quantile<right>(with_threshold_value) >, void> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::pot_quantile<right> >, void> b(pot_threshold_value = 1);
    both<void, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.9), extract_result<tag::pot_quantile<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_pot_quantile_probability_right tag::pot_quantile<right>(with_threshold_probability) is tag::pot_quantile_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_pot_quantile_probability_right)
{
    accumulator_set<double, stats<tag::pot_quantile<right>(with_threshold_probability) >, void> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::pot_quantile_prob<right> >, void> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<void, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.9), extract_result<tag::pot_quantile_prob<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_pot_tail_mean_value_right tag::pot_tail_mean<right>(with_threshold_value) is tag::pot_tail_mean<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_pot_tail_mean_value_right)
{
    accumulator_set<double, stats<tag::pot_tail_mean<right>(with_threshold_value) >, void> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::pot_tail_mean<right> >, void> b(pot_threshold_value = 1);
    both<void, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.9), extract_result<tag::pot_tail_mean<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_pot_tail_mean_probability_right tag::pot_tail_mean<right>(with_threshold_probability) is tag::pot_tail_mean_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_pot_tail_mean_probability_right)
{
    accumulator_set<double, stats<tag::pot_tail_mean<right>(with_threshold_probability) >, void> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::pot_tail_mean_prob<right> >, void> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<void, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.9), extract_result<tag::pot_tail_mean_prob<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_w_tvm0_absolute_right tag::tail_variate_means<right, V, tag::covariate1>(absolute) in a weighted set is tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvm0_absolute_right)
{
    accumulator_set<double, stats<tag::tail_variate_means<right, V, tag::covariate1>(absolute) >, double> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1> >, double> b(tag::tail<right>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(tail_variate_means(a, quantile_probability = 0.6), extract_result<tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1> >(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_w_tvm0_relative_right tag::tail_variate_means<right, V, tag::covariate1>(relative) in a weighted set is tag::relative_weighted_tail_variate_means<right, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvm0_relative_right)
{
    accumulator_set<double, stats<tag::tail_variate_means<right, V, tag::covariate1>(relative) >, double> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::relative_weighted_tail_variate_means<right, V, tag::covariate1> >, double> b(tag::tail<right>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(relative_tail_variate_means(a, quantile_probability = 0.6), extract_result<tag::relative_weighted_tail_variate_means<right, V, tag::covariate1> >(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_w_tvm1_absolute_right tag::weighted_tail_variate_means<right, V, tag::covariate1>(absolute) in a weighted set is tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvm1_absolute_right)
{
    accumulator_set<double, stats<tag::weighted_tail_variate_means<right, V, tag::covariate1>(absolute) >, double> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1> >, double> b(tag::tail<right>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(tail_variate_means(a, quantile_probability = 0.6), extract_result<tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1> >(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_w_tvm1_relative_right tag::weighted_tail_variate_means<right, V, tag::covariate1>(relative) in a weighted set is tag::relative_weighted_tail_variate_means<right, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvm1_relative_right)
{
    accumulator_set<double, stats<tag::weighted_tail_variate_means<right, V, tag::covariate1>(relative) >, double> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::relative_weighted_tail_variate_means<right, V, tag::covariate1> >, double> b(tag::tail<right>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(relative_tail_variate_means(a, quantile_probability = 0.6), extract_result<tag::relative_weighted_tail_variate_means<right, V, tag::covariate1> >(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_w_tvmx_absolute_right tag::absolute_tail_variate_means<right, V, tag::covariate1> in a weighted set is tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvmx_absolute_right)
{
    accumulator_set<double, stats<tag::absolute_tail_variate_means<right, V, tag::covariate1> >, double> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1> >, double> b(tag::tail<right>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(tail_variate_means(a, quantile_probability = 0.6), extract_result<tag::absolute_weighted_tail_variate_means<right, V, tag::covariate1> >(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_w_tvmx_relative_right tag::relative_tail_variate_means<right, V, tag::covariate1> in a weighted set is tag::relative_weighted_tail_variate_means<right, V, tag::covariate1>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_tvmx_relative_right)
{
    accumulator_set<double, stats<tag::relative_tail_variate_means<right, V, tag::covariate1> >, double> a(tag::tail<right>::cache_size = 5); accumulator_set<double, stats<tag::relative_weighted_tail_variate_means<right, V, tag::covariate1> >, double> b(tag::tail<right>::cache_size = 5);
    both_v<double, 5, 8>(a, b);
    eqr(relative_tail_variate_means(a, quantile_probability = 0.6), extract_result<tag::relative_weighted_tail_variate_means<right, V, tag::covariate1> >(b, quantile_probability = 0.6));
    vf_cover("end");
}
// @bound h_w_peaks_over_threshold_value_right tag::peaks_over_threshold<right>(with_threshold_value) in a weighted set is tag::weighted_peaks_over_threshold<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_peaks_over_threshold_value_right)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<right>(with_threshold_value) >, double> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::weighted_peaks_over_threshold<right> >, double> b(pot_threshold_value = 1);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold<right> >(b));
    vf_cover("end");
}
// @bound h_ww_peaks_over_threshold_value_right tag::weighted_peaks_over_threshold<right>(with_threshold_value) in a weighted set is tag::weighted_peaks_over_threshold<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_peaks_over_threshold_value_right)
{
    accumulator_set<double, stats<tag::weighted_peaks_over_threshold<right>(with_threshold_value) >, double> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::weighted_peaks_over_threshold<right> >, double> b(pot_threshold_value = 1);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold<right> >(b));
    vf_cover("end");
}
// @bound h_wx_peaks_over_threshold_value_right tag::peaks_over_threshold<right> in a weighted set is tag::weighted_peaks_over_threshold<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_peaks_over_threshold_value_right)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<right> >, double> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::weighted_peaks_over_threshold<right> >, double> b(pot_threshold_value = 1);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold<right> >(b));
    vf_cover("end");
}
// @bound h_w_peaks_over_threshold_probability_right tag::peaks_over_threshold<right>(with_threshold_probability) in a weighted set is tag::weighted_peaks_over_threshold_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_peaks_over_threshold_probability_right)
{
    accumulator_set<double, stats<tag::peaks_over_threshold<right>(with_threshold_probability) >, double> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::weighted_peaks_over_threshold_prob<right> >, double> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold_prob<right> >(b));
    vf_cover("end");
}
// @bound h_ww_peaks_over_threshold_probability_right tag::weighted_peaks_over_threshold<right>(with_threshold_probability) in a weighted set is tag::weighted_peaks_over_threshold_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_peaks_over_threshold_probability_right)
{
    accumulator_set<double, stats<tag::weighted_peaks_over_threshold<right>(with_threshold_probability) >, double> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::weighted_peaks_over_threshold_prob<right> >, double> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold_prob<right> >(b));
    vf_cover("end");
}
// @bound h_wx_peaks_over_threshold_probability_right tag::peaks_over_threshold_prob<right> in a weighted set is tag::weighted_peaks_over_threshold_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_peaks_over_threshold_probability_right)
{
    accumulator_set<double, stats<tag::peaks_over_threshold_prob<right> >, double> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::weighted_peaks_over_threshold_prob<right> >, double> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<double, 5, 4>(a, b);
    eq(peaks_over_threshold(a), extract_result<tag::weighted_peaks_over_threshold_prob<right> >(b));
    vf_cover("end");
}
// @bound h_w_pot_quantile_value_right tag::pot_quantile<right>(with_threshold_value) in a weighted set is tag::weighted_pot_quantile<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_pot_quantile_value_right)
{
    accumulator_set<double, stats<tag::pot_quantile<right>(with_threshold_value) >, double> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::weighted_pot_quantile<right> >, double> b(pot_threshold_value = 1);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_quantile<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_ww_pot_quantile_value_right tag::weighted_pot_quantile<right>(with_threshold_value) in a weighted set is tag::weighted_pot_quantile<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_pot_quantile_value_right)
{
    accumulator_set<double, stats<tag::weighted_pot_quantile<right>(with_threshold_value) >, double> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::weighted_pot_quantile<right> >, double> b(pot_threshold_value = 1);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_quantile<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_wx_pot_quantile_value_right tag::pot_quantile<right> in a weighted set is tag::weighted_pot_quantile<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_pot_quantile_value_right)
{
    accumulator_set<double, stats<tag::pot_quantile<right> >, double> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::weighted_pot_quantile<right> >, double> b(pot_threshold_value = 1);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_quantile<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_w_pot_quantile_probability_right tag::pot_quantile<right>(with_threshold_probability) in a weighted set is tag::weighted_pot_quantile_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_pot_quantile_probability_right)
{
    accumulator_set<double, stats<tag::pot_quantile<right>(with_threshold_probability) >, double> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::weighted_pot_quantile_prob<right> >, double> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_quantile_prob<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_ww_pot_quantile_probability_right tag::weighted_pot_quantile<right>(with_threshold_probability) in a weighted set is tag::weighted_pot_quantile_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_pot_quantile_probability_right)
{
    accumulator_set<double, stats<tag::weighted_pot_quantile<right>(with_threshold_probability) >, double> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::weighted_pot_quantile_prob<right> >, double> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_quantile_prob<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_wx_pot_quantile_probability_right tag::pot_quantile_prob<right> in a weighted set is tag::weighted_pot_quantile_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_pot_quantile_probability_right)
{
    accumulator_set<double, stats<tag::pot_quantile_prob<right> >, double> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::weighted_pot_quantile_prob<right> >, double> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<double, 5, 4>(a, b);
    eq(quantile(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_quantile_prob<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_w_pot_tail_mean_value_right tag::pot_tail_mean<right>(with_threshold_value) in a weighted set is tag::weighted_pot_tail_mean<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_pot_tail_mean_value_right)
{
    accumulator_set<double, stats<tag::pot_tail_mean<right>(with_threshold_value) >, double> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::weighted_pot_tail_mean<right> >, double> b(pot_threshold_value = 1);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_tail_mean<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_ww_pot_tail_mean_value_right tag::weighted_pot_tail_mean<right>(with_threshold_value) in a weighted set is tag::weighted_pot_tail_mean<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_pot_tail_mean_value_right)
{
    accumulator_set<double, stats<tag::weighted_pot_tail_mean<right>(with_threshold_value) >, double> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::weighted_pot_tail_mean<right> >, double> b(pot_threshold_value = 1);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_tail_mean<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_wx_pot_tail_mean_value_right tag::pot_tail_mean<right> in a weighted set is tag::weighted_pot_tail_mean<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_pot_tail_mean_value_right)
{
    accumulator_set<double, stats<tag::pot_tail_mean<right> >, double> a(pot_threshold_value = 1); accumulator_set<double, stats<tag::weighted_pot_tail_mean<right> >, double> b(pot_threshold_value = 1);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_tail_mean<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_w_pot_tail_mean_probability_right tag::pot_tail_mean<right>(with_threshold_probability) in a weighted set is tag::weighted_pot_tail_mean_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_pot_tail_mean_probability_right)
{
    accumulator_set<double, stats<tag::pot_tail_mean<right>(with_threshold_probability) >, double> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::weighted_pot_tail_mean_prob<right> >, double> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_tail_mean_prob<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_ww_pot_tail_mean_probability_right tag::weighted_pot_tail_mean<right>(with_threshold_probability) in a weighted set is tag::weighted_pot_tail_mean_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_ww_pot_tail_mean_probability_right)
{
    accumulator_set<double, stats<tag::weighted_pot_tail_mean<right>(with_threshold_probability) >, double> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::weighted_pot_tail_mean_prob<right> >, double> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_tail_mean_prob<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
// @bound h_wx_pot_tail_mean_probability_right tag::pot_tail_mean_prob<right> in a weighted set is tag::weighted_pot_tail_mean_prob<right>: the same 5 samples (1 arbitrary, with arbitrary variates) into both sets
HARNESS(h_wx_pot_tail_mean_probability_right)
{
    accumulator_set<double, stats<tag::pot_tail_mean_prob<right> >, double> a(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6); accumulator_set<double, stats<tag::weighted_pot_tail_mean_prob<right> >, double> b(tag::tail<right>::cache_size = 5, pot_threshold_probability = 0.6);
    both<double, 5, 4>(a, b);
    eq(tail_mean(a, quantile_probability = 0.9), extract_result<tag::weighted_pot_tail_mean_prob<right> >(b, quantile_probability = 0.9));
    vf_cover("end");
}
