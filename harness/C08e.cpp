#include "C08.h"
// The compensated variants are told from the plain ones by their rounding: IEEE arithmetic on floats.
static float big_() { return 1.0f + (float)vf_int(0, (1 << 22)) * (1.0f / (1 << 23)); }
static float small_() { return (float)vf_int(-200, 200) * (1.0f / (1 << 30)); }
NOINLINE void same(float a, float b) { vf_assert(a == b, "same"); }
template<typename A, typename B> NOINLINE void fill(A &a, B &b)
{
    float x = big_();
    a(x, covariate1 = x); b(x, covariate1 = x);
    for (int i = 0; i < 4; ++i) { x = small_(); a(x, covariate1 = x); b(x, covariate1 = x); }
}
template<typename A, typename B> NOINLINE void fill_w(A &a, B &b)      // the weights carry the rounding of their own sum
{
    float x = big_();
    a(x, weight = 1.f, covariate1 = x); b(x, weight = 1.f, covariate1 = x);
    for (int i = 0; i < 4; ++i) { x = small_(); float w = i % 2 ? 0.5f : 1.f; a(x, weight = w, covariate1 = x); b(x, weight = w, covariate1 = x); }
}
template<typename A, typename B> NOINLINE void fill_ws(A &a, B &b)
{
    float w = big_();
    a(1.f, weight = w); b(1.f, weight = w);
    for (int i = 0; i < 4; ++i) { w = small_(); a(1.f, weight = w); b(1.f, weight = w); }
}
// @cfg h_round_sum round=1
// @bound h_round_sum sum(kahan) and the explicitly named compensated sum, 5 floats whose plain sum rounds, results bit for bit
HARNESS(h_round_sum)
{
    accumulator_set<float, stats<tag::sum(kahan)> > a; accumulator_set<float, stats<tag::sum_kahan> > b;
    fill(a, b);
    same(sum(a), extract_result<tag::sum_kahan>(b)); same(sum_kahan(a), sum(b));
    vf_cover("end");
}
// @cfg h_round_plain round=1
// @bound h_round_plain the plain sum under its common extractor stays the plain one
HARNESS(h_round_plain)
{
    accumulator_set<float, stats<tag::sum> > a; 
    float x = big_(), s = x; a(x);
    for (int i = 0; i < 4; ++i) { x = small_(); a(x); s += x; }
    same(sum(a), s);
    vf_cover("end");
}
// @cfg h_round_wsum round=1
// @bound h_round_wsum sum(kahan) and weighted_sum(kahan) in a weighted set are the compensated weighted sum, 5 floats, bit for bit
HARNESS(h_round_wsum)
{
    accumulator_set<float, stats<tag::weighted_sum_kahan>, float> b;
    switch (vf_choice(3))
    {
    case 0: { accumulator_set<float, stats<tag::sum(kahan)>, float> a; fill_w(a, b); same(sum(a), extract_result<tag::weighted_sum_kahan>(b)); break; }
    case 1: { accumulator_set<float, stats<tag::weighted_sum(kahan)>, float> a; fill_w(a, b); same(weighted_sum(a), extract_result<tag::weighted_sum_kahan>(b)); break; }
    default: { accumulator_set<float, stats<tag::sum_kahan>, float> a; fill_w(a, b); same(sum(a), extract_result<tag::weighted_sum_kahan>(b)); break; }
    }
    vf_cover("end");
}
// @cfg h_round_weights round=1
// @bound h_round_weights sum_of_weights(kahan) is the compensated sum of weights, 5 float weights, bit for bit
HARNESS(h_round_weights)
{
    accumulator_set<float, stats<tag::sum_of_weights(kahan)>, float> a; accumulator_set<float, stats<tag::sum_of_weights_kahan>, float> b;
    fill_ws(a, b);
    same(sum_of_weights(a), extract_result<tag::sum_of_weights_kahan>(b));
    vf_cover("end");
}
// @cfg h_round_variates round=1
// @bound h_round_variates the compensated sum of variates in a set without weights, with weights, and the weighted one with unit weights, 4 floats, bit for bit
HARNESS(h_round_variates)
{
    accumulator_set<float, stats<tag::sum_of_variates_kahan<float, tag::covariate1> > > a; accumulator_set<float, stats<tag::sum_of_variates_kahan<float, tag::covariate1> >, float> b;
    accumulator_set<float, stats<tag::weighted_sum_of_variates_kahan<float, tag::covariate1> >, float> c;
    float x = big_();
    a(0.f, covariate1 = x); b(0.f, weight = 1.f, covariate1 = x); c(0.f, weight = 1.f, covariate1 = x);
    for (int i = 0; i < 3; ++i) { x = small_(); a(0.f, covariate1 = x); b(0.f, weight = 2.f, covariate1 = x); c(0.f, weight = 1.f, covariate1 = x); }
    same(sum_of_variates(a), extract_result<tag::sum_of_variates_kahan<float, tag::covariate1> >(b));
    same(sum_of_variates(a), extract_result<tag::weighted_sum_of_variates_kahan<float, tag::covariate1> >(c));
    vf_cover("end");
}
