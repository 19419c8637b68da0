#include "C08.h"
// The lazy and the immediate forms agree as real numbers and are told apart by their rounding: IEEE arithmetic, samples from a small set of awkward values.
typedef tag::mean_of_variates<float, tag::covariate1> mv; typedef tag::weighted_mean_of_variates<float, tag::covariate1> wmv;
typedef tag::immediate_mean_of_variates<float, tag::covariate1> imv; typedef tag::immediate_weighted_mean_of_variates<float, tag::covariate1> wimv;
static float const val[4] = { 16777215.f, 3.f, -5.f, 0.0000019073486328125f };
NOINLINE void same(double a, double b) { vf_assert(a == b, "same"); }
template<typename A, typename B> NOINLINE void fill(A &a, B &b)
{
    float x = 7, w = 3; a(x, weight = w, covariate1 = w); b(x, weight = w, covariate1 = w);
    for (int i = 0; i < 3; ++i) { x = val[vf_choice(4)]; w = val[1 + 2 * (i % 2)]; a(x, weight = w, covariate1 = x); b(x, weight = w, covariate1 = x); }
}
static float const wval[4] = { 10066330.f / 33554432, 1.f, 7.f, 11.f };
template<typename A, typename B> NOINLINE void fill_w(A &a, B &b)
{
    a(1.f, weight = 3.f); b(1.f, weight = 3.f);
    for (int i = 0; i < 3; ++i) { float w = wval[vf_choice(4)]; a(1.f, weight = w); b(1.f, weight = w); }
}
// @cfg h_form_mean round=1
// @bound h_form_mean tag::mean(lazy) is tag::mean: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_mean)
{
    accumulator_set<float, stats<tag::mean(lazy) >, void> a; accumulator_set<float, stats<tag::mean >, void> b;
    fill(a, b);
    same(mean(a), extract_result<tag::mean >(b));
    vf_cover("end");
}
// @cfg h_form_mean_i round=1
// @bound h_form_mean_i tag::mean(immediate) is tag::immediate_mean: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_mean_i)
{
    accumulator_set<float, stats<tag::mean(immediate) >, void> a; accumulator_set<float, stats<tag::immediate_mean >, void> b;
    fill(a, b);
    same(mean(a), extract_result<tag::immediate_mean >(b));
    vf_cover("end");
}
// @cfg h_form_mov round=1
// @bound h_form_mov mv(lazy) is mv: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_mov)
{
    accumulator_set<float, stats<mv(lazy) >, void> a; accumulator_set<float, stats<mv >, void> b;
    fill(a, b);
    same(extract_result<mv>(a), extract_result<mv >(b));
    vf_cover("end");
}
// @cfg h_form_mov_i round=1
// @bound h_form_mov_i mv(immediate) is imv: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_mov_i)
{
    accumulator_set<float, stats<mv(immediate) >, void> a; accumulator_set<float, stats<imv >, void> b;
    fill(a, b);
    same(extract_result<mv>(a), extract_result<imv >(b));
    vf_cover("end");
}
// @cfg h_form_mow round=1
// @bound h_form_mow tag::mean_of_weights(lazy) in a weighted set is tag::mean_of_weights: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_mow)
{
    accumulator_set<float, stats<tag::mean_of_weights(lazy) >, float> a; accumulator_set<float, stats<tag::mean_of_weights >, float> b;
    fill_w(a, b);
    same(mean_of_weights(a), extract_result<tag::mean_of_weights >(b));
    vf_cover("end");
}
// @cfg h_form_mow_i round=1
// @bound h_form_mow_i tag::mean_of_weights(immediate) in a weighted set is tag::immediate_mean_of_weights: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_mow_i)
{
    accumulator_set<float, stats<tag::mean_of_weights(immediate) >, float> a; accumulator_set<float, stats<tag::immediate_mean_of_weights >, float> b;
    fill_w(a, b);
    same(mean_of_weights(a), extract_result<tag::immediate_mean_of_weights >(b));
    vf_cover("end");
}
// @cfg h_form_wmean round=1
// @bound h_form_wmean tag::mean(lazy) in a weighted set is tag::weighted_mean: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_wmean)
{
    accumulator_set<float, stats<tag::mean(lazy) >, float> a; accumulator_set<float, stats<tag::weighted_mean >, float> b;
    fill(a, b);
    same(mean(a), extract_result<tag::weighted_mean >(b));
    vf_cover("end");
}
// @cfg h_form_wmean_i round=1
// @bound h_form_wmean_i tag::mean(immediate) in a weighted set is tag::immediate_weighted_mean: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_wmean_i)
{
    accumulator_set<float, stats<tag::mean(immediate) >, float> a; accumulator_set<float, stats<tag::immediate_weighted_mean >, float> b;
    fill(a, b);
    same(mean(a), extract_result<tag::immediate_weighted_mean >(b));
    vf_cover("end");
}
// @cfg h_form_wwmean round=1
// @bound h_form_wwmean tag::weighted_mean(lazy) in a weighted set is tag::weighted_mean: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_wwmean)
{
    accumulator_set<float, stats<tag::weighted_mean(lazy) >, float> a; accumulator_set<float, stats<tag::weighted_mean >, float> b;
    fill(a, b);
    same(weighted_mean(a), extract_result<tag::weighted_mean >(b));
    vf_cover("end");
}
// @cfg h_form_wwmean_i round=1
// @bound h_form_wwmean_i tag::weighted_mean(immediate) in a weighted set is tag::immediate_weighted_mean: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_wwmean_i)
{
    accumulator_set<float, stats<tag::weighted_mean(immediate) >, float> a; accumulator_set<float, stats<tag::immediate_weighted_mean >, float> b;
    fill(a, b);
    same(weighted_mean(a), extract_result<tag::immediate_weighted_mean >(b));
    vf_cover("end");
}
// @cfg h_form_wmov round=1
// @bound h_form_wmov wmv(lazy) in a weighted set is wmv: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_wmov)
{
    accumulator_set<float, stats<wmv(lazy) >, float> a; accumulator_set<float, stats<wmv >, float> b;
    fill(a, b);
    same(extract_result<wmv>(a), extract_result<wmv >(b));
    vf_cover("end");
}
// @cfg h_form_wmov_i round=1
// @bound h_form_wmov_i wmv(immediate) in a weighted set is wimv: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_wmov_i)
{
    accumulator_set<float, stats<wmv(immediate) >, float> a; accumulator_set<float, stats<wimv >, float> b;
    fill(a, b);
    same(extract_result<wmv>(a), extract_result<wimv >(b));
    vf_cover("end");
}
// @cfg h_form_variance round=1
// @bound h_form_variance tag::variance(lazy) is tag::lazy_variance: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_variance)
{
    accumulator_set<float, stats<tag::variance(lazy) >, void> a; accumulator_set<float, stats<tag::lazy_variance >, void> b;
    fill(a, b);
    same(variance(a), extract_result<tag::lazy_variance >(b));
    vf_cover("end");
}
// @cfg h_form_variance_i round=1
// @bound h_form_variance_i tag::variance(immediate) is tag::variance: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_variance_i)
{
    accumulator_set<float, stats<tag::variance(immediate) >, void> a; accumulator_set<float, stats<tag::variance >, void> b;
    fill(a, b);
    same(variance(a), extract_result<tag::variance >(b));
    vf_cover("end");
}
// @cfg h_form_wvariance round=1
// @bound h_form_wvariance tag::variance(lazy) in a weighted set is tag::lazy_weighted_variance: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_wvariance)
{
    accumulator_set<float, stats<tag::variance(lazy) >, float> a; accumulator_set<float, stats<tag::lazy_weighted_variance >, float> b;
    fill(a, b);
    same(variance(a), extract_result<tag::lazy_weighted_variance >(b));
    vf_cover("end");
}
// @cfg h_form_wvariance_i round=1
// @bound h_form_wvariance_i tag::variance(immediate) in a weighted set is tag::weighted_variance: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_wvariance_i)
{
    accumulator_set<float, stats<tag::variance(immediate) >, float> a; accumulator_set<float, stats<tag::weighted_variance >, float> b;
    fill(a, b);
    same(variance(a), extract_result<tag::weighted_variance >(b));
    vf_cover("end");
}
// @cfg h_form_rmean round=1
// @bound h_form_rmean tag::rolling_mean(lazy) is tag::lazy_rolling_mean: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_rmean)
{
    accumulator_set<float, stats<tag::rolling_mean(lazy) >, void> a(tag::rolling_window::window_size = 3); accumulator_set<float, stats<tag::lazy_rolling_mean >, void> b(tag::rolling_window::window_size = 3);
    fill(a, b);
    same(rolling_mean(a), extract_result<tag::lazy_rolling_mean >(b));
    vf_cover("end");
}
// @cfg h_form_rmean_i round=1
// @bound h_form_rmean_i tag::rolling_mean(immediate) is tag::immediate_rolling_mean: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_rmean_i)
{
    accumulator_set<float, stats<tag::rolling_mean(immediate) >, void> a(tag::rolling_window::window_size = 3); accumulator_set<float, stats<tag::immediate_rolling_mean >, void> b(tag::rolling_window::window_size = 3);
    fill(a, b);
    same(rolling_mean(a), extract_result<tag::immediate_rolling_mean >(b));
    vf_cover("end");
}
// @cfg h_form_rvar round=1
// @bound h_form_rvar tag::rolling_variance(lazy) is tag::lazy_rolling_variance: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_rvar)
{
    accumulator_set<float, stats<tag::rolling_variance(lazy) >, void> a(tag::rolling_window::window_size = 3); accumulator_set<float, stats<tag::lazy_rolling_variance >, void> b(tag::rolling_window::window_size = 3);
    fill(a, b);
    same(rolling_variance(a), extract_result<tag::lazy_rolling_variance >(b));
    vf_cover("end");
}
// @cfg h_form_rvar_i round=1
// @bound h_form_rvar_i tag::rolling_variance(immediate) is tag::immediate_rolling_variance: 4 floats, 3 of them any of 4 values, IEEE rounding, bit for bit
HARNESS(h_form_rvar_i)
{
    accumulator_set<float, stats<tag::rolling_variance(immediate) >, void> a(tag::rolling_window::window_size = 3); accumulator_set<float, stats<tag::immediate_rolling_variance >, void> b(tag::rolling_window::window_size = 3);
    fill(a, b);
    same(rolling_variance(a), extract_result<tag::immediate_rolling_variance >(b));
    vf_cover("end");
}
