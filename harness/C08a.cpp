#include "C08.h"
typedef tag::mean_of_variates<double, tag::covariate1> mv; typedef tag::weighted_mean_of_variates<double, tag::covariate1> wmv;
typedef tag::immediate_mean_of_variates<double, tag::covariate1> imv; typedef tag::immediate_weighted_mean_of_variates<double, tag::covariate1> wimv;
typedef tag::covariance<double, tag::covariate1> cv; typedef tag::weighted_covariance<double, tag::covariate1> wcv;
// @bound h_mean_lazy tag::mean(lazy) is tag::mean: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_mean_lazy)
{
    accumulator_set<double, stats<tag::mean(lazy) >, void> a; accumulator_set<double, stats<tag::mean >, void> b;
    both<void, 3, 7>(a, b);
    eq(mean(a), extract_result<tag::mean >(b));
    vf_cover("end");
}
// @bound h_mean_immediate tag::mean(immediate) is tag::immediate_mean: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_mean_immediate)
{
    accumulator_set<double, stats<tag::mean(immediate) >, void> a; accumulator_set<double, stats<tag::immediate_mean >, void> b;
    both<void, 3, 7>(a, b);
    eq(mean(a), extract_result<tag::immediate_mean >(b));
    vf_cover("end");
}
// @bound h_mov_lazy mv(lazy) is mv: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_mov_lazy)
{
    accumulator_set<double, stats<mv(lazy) >, void> a; accumulator_set<double, stats<mv >, void> b;
    both<void, 3, 7>(a, b);
    eq(extract_result<mv>(a), extract_result<mv >(b));
    vf_cover("end");
}
// @bound h_mov_immediate mv(immediate) is imv: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_mov_immediate)
{
    accumulator_set<double, stats<mv(immediate) >, void> a; accumulator_set<double, stats<imv >, void> b;
    both<void, 3, 7>(a, b);
    eq(extract_result<mv>(a), extract_result<imv >(b));
    vf_cover("end");
}
// @bound h_variance_lazy tag::variance(lazy) is tag::lazy_variance: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_variance_lazy)
{
    accumulator_set<double, stats<tag::variance(lazy) >, void> a; accumulator_set<double, stats<tag::lazy_variance >, void> b;
    both<void, 3, 7>(a, b);
    eq(variance(a), extract_result<tag::lazy_variance >(b));
    vf_cover("end");
}
// @bound h_variance_immediate tag::variance(immediate) is tag::variance: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_variance_immediate)
{
    accumulator_set<double, stats<tag::variance(immediate) >, void> a; accumulator_set<double, stats<tag::variance >, void> b;
    both<void, 3, 7>(a, b);
    eq(variance(a), extract_result<tag::variance >(b));
    vf_cover("end");
}
// @bound h_sum_kahan tag::sum(kahan) is tag::sum_kahan: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_sum_kahan)
{
    accumulator_set<double, stats<tag::sum(kahan) >, void> a; accumulator_set<double, stats<tag::sum_kahan >, void> b;
    both<void, 3, 7>(a, b);
    eq(sum(a), extract_result<tag::sum_kahan >(b));
    vf_cover("end");
}
// @bound h_error_mean tag::error_of<tag::mean> is tag::error_of<tag::mean>: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_error_mean)
{
    accumulator_set<double, stats<tag::error_of<tag::mean> >, void> a; accumulator_set<double, stats<tag::error_of<tag::mean> >, void> b;
    both<void, 3, 7>(a, b);
    eq(error_of<tag::mean>(a), extract_result<tag::error_of<tag::mean> >(b));
    vf_cover("end");
}
// @bound h_error_mean_immediate tag::error_of<tag::mean(immediate)> is tag::error_of<tag::immediate_mean>: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_error_mean_immediate)
{
    accumulator_set<double, stats<tag::error_of<tag::mean(immediate)> >, void> a; accumulator_set<double, stats<tag::error_of<tag::immediate_mean> >, void> b;
    both<void, 3, 7>(a, b);
    eq(error_of<tag::mean(immediate)>(a), extract_result<tag::error_of<tag::immediate_mean> >(b));
    vf_cover("end");
}
// @bound h_error_mean_lazy tag::error_of<tag::mean(lazy)> is tag::error_of<tag::mean>: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_error_mean_lazy)
{
    accumulator_set<double, stats<tag::error_of<tag::mean(lazy)> >, void> a; accumulator_set<double, stats<tag::error_of<tag::mean> >, void> b;
    both<void, 3, 7>(a, b);
    eq(error_of<tag::mean>(a), extract_result<tag::error_of<tag::mean> >(b));
    vf_cover("end");
}
// @bound h_w_sum tag::sum in a weighted set is tag::weighted_sum: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_sum)
{
    accumulator_set<double, stats<tag::sum >, double> a; accumulator_set<double, stats<tag::weighted_sum >, double> b;
    both<double, 3, 7>(a, b);
    eq(sum(a), extract_result<tag::weighted_sum >(b));
    vf_cover("end");
}
// @bound h_w_sum_kahan tag::sum(kahan) in a weighted set is tag::weighted_sum_kahan: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_sum_kahan)
{
    accumulator_set<double, stats<tag::sum(kahan) >, double> a; accumulator_set<double, stats<tag::weighted_sum_kahan >, double> b;
    both<double, 3, 7>(a, b);
    eq(sum(a), extract_result<tag::weighted_sum_kahan >(b));
    vf_cover("end");
}
// @bound h_w_sum_kahan2 tag::sum_kahan in a weighted set is tag::weighted_sum_kahan: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_sum_kahan2)
{
    accumulator_set<double, stats<tag::sum_kahan >, double> a; accumulator_set<double, stats<tag::weighted_sum_kahan >, double> b;
    both<double, 3, 7>(a, b);
    eq(sum_kahan(a), extract_result<tag::weighted_sum_kahan >(b));
    vf_cover("end");
}
// @bound h_w_sum_kahan3 tag::weighted_sum(kahan) in a weighted set is tag::weighted_sum_kahan: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_sum_kahan3)
{
    accumulator_set<double, stats<tag::weighted_sum(kahan) >, double> a; accumulator_set<double, stats<tag::weighted_sum_kahan >, double> b;
    both<double, 3, 7>(a, b);
    eq(weighted_sum(a), extract_result<tag::weighted_sum_kahan >(b));
    vf_cover("end");
}
// @bound h_w_weights_kahan tag::sum_of_weights(kahan) in a weighted set is tag::sum_of_weights_kahan: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_weights_kahan)
{
    accumulator_set<double, stats<tag::sum_of_weights(kahan) >, double> a; accumulator_set<double, stats<tag::sum_of_weights_kahan >, double> b;
    both<double, 3, 7>(a, b);
    eq(sum_of_weights(a), extract_result<tag::sum_of_weights_kahan >(b));
    vf_cover("end");
}
// @bound h_w_mean_of_weights_lazy tag::mean_of_weights(lazy) in a weighted set is tag::mean_of_weights: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_mean_of_weights_lazy)
{
    accumulator_set<double, stats<tag::mean_of_weights(lazy) >, double> a; accumulator_set<double, stats<tag::mean_of_weights >, double> b;
    both<double, 3, 7>(a, b);
    eq(mean_of_weights(a), extract_result<tag::mean_of_weights >(b));
    vf_cover("end");
}
// @bound h_w_mean_of_weights_imm tag::mean_of_weights(immediate) in a weighted set is tag::immediate_mean_of_weights: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_mean_of_weights_imm)
{
    accumulator_set<double, stats<tag::mean_of_weights(immediate) >, double> a; accumulator_set<double, stats<tag::immediate_mean_of_weights >, double> b;
    both<double, 3, 7>(a, b);
    eq(mean_of_weights(a), extract_result<tag::immediate_mean_of_weights >(b));
    vf_cover("end");
}
// @bound h_w_mean tag::mean in a weighted set is tag::weighted_mean: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_mean)
{
    accumulator_set<double, stats<tag::mean >, double> a; accumulator_set<double, stats<tag::weighted_mean >, double> b;
    both<double, 3, 7>(a, b);
    eq(mean(a), extract_result<tag::weighted_mean >(b));
    vf_cover("end");
}
// @bound h_w_mean_lazy tag::mean(lazy) in a weighted set is tag::weighted_mean: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_mean_lazy)
{
    accumulator_set<double, stats<tag::mean(lazy) >, double> a; accumulator_set<double, stats<tag::weighted_mean >, double> b;
    both<double, 3, 7>(a, b);
    eq(mean(a), extract_result<tag::weighted_mean >(b));
    vf_cover("end");
}
// @bound h_w_mean_imm tag::mean(immediate) in a weighted set is tag::immediate_weighted_mean: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_mean_imm)
{
    accumulator_set<double, stats<tag::mean(immediate) >, double> a; accumulator_set<double, stats<tag::immediate_weighted_mean >, double> b;
    both<double, 3, 7>(a, b);
    eq(mean(a), extract_result<tag::immediate_weighted_mean >(b));
    vf_cover("end");
}
// @bound h_w_wmean_lazy tag::weighted_mean(lazy) in a weighted set is tag::weighted_mean: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wmean_lazy)
{
    accumulator_set<double, stats<tag::weighted_mean(lazy) >, double> a; accumulator_set<double, stats<tag::weighted_mean >, double> b;
    both<double, 3, 7>(a, b);
    eq(weighted_mean(a), extract_result<tag::weighted_mean >(b));
    vf_cover("end");
}
// @bound h_w_wmean_imm tag::weighted_mean(immediate) in a weighted set is tag::immediate_weighted_mean: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wmean_imm)
{
    accumulator_set<double, stats<tag::weighted_mean(immediate) >, double> a; accumulator_set<double, stats<tag::immediate_weighted_mean >, double> b;
    both<double, 3, 7>(a, b);
    eq(weighted_mean(a), extract_result<tag::immediate_weighted_mean >(b));
    vf_cover("end");
}
// @bound h_w_immediate_mean tag::immediate_mean in a weighted set is tag::immediate_weighted_mean: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_immediate_mean)
{
    accumulator_set<double, stats<tag::immediate_mean >, double> a; accumulator_set<double, stats<tag::immediate_weighted_mean >, double> b;
    both<double, 3, 7>(a, b);
    eq(mean(a), extract_result<tag::immediate_weighted_mean >(b));
    vf_cover("end");
}
// @bound h_w_mov mv in a weighted set is wmv: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_mov)
{
    accumulator_set<double, stats<mv >, double> a; accumulator_set<double, stats<wmv >, double> b;
    both<double, 3, 7>(a, b);
    eq(extract_result<mv>(a), extract_result<wmv >(b));
    vf_cover("end");
}
// @bound h_w_mov_lazy mv(lazy) in a weighted set is wmv: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_mov_lazy)
{
    accumulator_set<double, stats<mv(lazy) >, double> a; accumulator_set<double, stats<wmv >, double> b;
    both<double, 3, 7>(a, b);
    eq(extract_result<mv>(a), extract_result<wmv >(b));
    vf_cover("end");
}
// @bound h_w_mov_imm mv(immediate) in a weighted set is wimv: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_mov_imm)
{
    accumulator_set<double, stats<mv(immediate) >, double> a; accumulator_set<double, stats<wimv >, double> b;
    both<double, 3, 7>(a, b);
    eq(extract_result<mv>(a), extract_result<wimv >(b));
    vf_cover("end");
}
// @bound h_w_imov imv in a weighted set is wimv: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_imov)
{
    accumulator_set<double, stats<imv >, double> a; accumulator_set<double, stats<wimv >, double> b;
    both<double, 3, 7>(a, b);
    eq(extract_result<mv>(a), extract_result<wimv >(b));
    vf_cover("end");
}
// @bound h_w_wmov_lazy wmv(lazy) in a weighted set is wmv: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wmov_lazy)
{
    accumulator_set<double, stats<wmv(lazy) >, double> a; accumulator_set<double, stats<wmv >, double> b;
    both<double, 3, 7>(a, b);
    eq(extract_result<wmv>(a), extract_result<wmv >(b));
    vf_cover("end");
}
// @bound h_w_wmov_imm wmv(immediate) in a weighted set is wimv: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wmov_imm)
{
    accumulator_set<double, stats<wmv(immediate) >, double> a; accumulator_set<double, stats<wimv >, double> b;
    both<double, 3, 7>(a, b);
    eq(extract_result<wmv>(a), extract_result<wimv >(b));
    vf_cover("end");
}
// @bound h_w_moment2 tag::moment<2> in a weighted set is tag::weighted_moment<2>: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_moment2)
{
    accumulator_set<double, stats<tag::moment<2> >, double> a; accumulator_set<double, stats<tag::weighted_moment<2> >, double> b;
    both<double, 3, 7>(a, b);
    eq(moment<2>(a), extract_result<tag::weighted_moment<2> >(b));
    vf_cover("end");
}
// @bound h_w_moment5 tag::moment<5> in a weighted set is tag::weighted_moment<5>: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_moment5)
{
    accumulator_set<double, stats<tag::moment<5> >, double> a; accumulator_set<double, stats<tag::weighted_moment<5> >, double> b;
    both<double, 3, 7>(a, b);
    eq(weighted_moment<5>(a), extract_result<tag::weighted_moment<5> >(b));
    vf_cover("end");
}
// @bound h_w_variance tag::variance in a weighted set is tag::weighted_variance: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_variance)
{
    accumulator_set<double, stats<tag::variance >, double> a; accumulator_set<double, stats<tag::weighted_variance >, double> b;
    both<double, 3, 7>(a, b);
    eq(variance(a), extract_result<tag::weighted_variance >(b));
    vf_cover("end");
}
// @bound h_w_variance_imm tag::variance(immediate) in a weighted set is tag::weighted_variance: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_variance_imm)
{
    accumulator_set<double, stats<tag::variance(immediate) >, double> a; accumulator_set<double, stats<tag::weighted_variance >, double> b;
    both<double, 3, 7>(a, b);
    eq(variance(a), extract_result<tag::weighted_variance >(b));
    vf_cover("end");
}
// @bound h_w_variance_lazy tag::variance(lazy) in a weighted set is tag::lazy_weighted_variance: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_variance_lazy)
{
    accumulator_set<double, stats<tag::variance(lazy) >, double> a; accumulator_set<double, stats<tag::lazy_weighted_variance >, double> b;
    both<double, 3, 7>(a, b);
    eq(variance(a), extract_result<tag::lazy_weighted_variance >(b));
    vf_cover("end");
}
// @bound h_w_lazy_variance tag::lazy_variance in a weighted set is tag::lazy_weighted_variance: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_lazy_variance)
{
    accumulator_set<double, stats<tag::lazy_variance >, double> a; accumulator_set<double, stats<tag::lazy_weighted_variance >, double> b;
    both<double, 3, 7>(a, b);
    eq(lazy_variance(a), extract_result<tag::lazy_weighted_variance >(b));
    vf_cover("end");
}
// @bound h_w_wvariance_lazy tag::weighted_variance(lazy) in a weighted set is tag::lazy_weighted_variance: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wvariance_lazy)
{
    accumulator_set<double, stats<tag::weighted_variance(lazy) >, double> a; accumulator_set<double, stats<tag::lazy_weighted_variance >, double> b;
    both<double, 3, 7>(a, b);
    eq(weighted_variance(a), extract_result<tag::lazy_weighted_variance >(b));
    vf_cover("end");
}
// @bound h_w_wvariance_imm tag::weighted_variance(immediate) in a weighted set is tag::weighted_variance: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_wvariance_imm)
{
    accumulator_set<double, stats<tag::weighted_variance(immediate) >, double> a; accumulator_set<double, stats<tag::weighted_variance >, double> b;
    both<double, 3, 7>(a, b);
    eq(weighted_variance(a), extract_result<tag::weighted_variance >(b));
    vf_cover("end");
}
// @bound h_w_skewness tag::skewness in a weighted set is tag::weighted_skewness: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_skewness)
{
    accumulator_set<double, stats<tag::skewness >, double> a; accumulator_set<double, stats<tag::weighted_skewness >, double> b;
    both<double, 3, 7>(a, b);
    vf_assume(moment<2>(a) != mean(a) * mean(a)); eq(skewness(a), extract_result<tag::weighted_skewness >(b));
    vf_cover("end");
}
// @bound h_w_kurtosis tag::kurtosis in a weighted set is tag::weighted_kurtosis: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_kurtosis)
{
    accumulator_set<double, stats<tag::kurtosis >, double> a; accumulator_set<double, stats<tag::weighted_kurtosis >, double> b;
    both<double, 3, 7>(a, b);
    vf_assume(moment<2>(a) != mean(a) * mean(a)); eq(kurtosis(a), extract_result<tag::weighted_kurtosis >(b));
    vf_cover("end");
}
// @bound h_w_covariance cv in a weighted set is wcv: the same 3 samples (3 arbitrary, with arbitrary variates) into both sets
HARNESS(h_w_covariance)
{
    accumulator_set<double, stats<cv >, double> a; accumulator_set<double, stats<wcv >, double> b;
    both<double, 3, 7>(a, b);
    eq(covariance(a), extract_result<wcv >(b));
    vf_cover("end");
}
