#define GROUP_BASIC
#include "C03.h"
// @bound l_sum a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_sum) { longrun<c_sum>(); }
// @bound h_sum copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_sum) { run<c_sum>(); }
// @bound l_immediate a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_immediate) { longrun<c_immediate>(); }
// @bound h_immediate copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_immediate) { run<c_immediate>(); }
// @bound l_lazy a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_lazy) { longrun<c_lazy>(); }
// @bound h_lazy copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_lazy) { run<c_lazy>(); }
// @bound l_shape a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_shape) { longrun<c_shape>(); }
// @bound h_shape copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_shape) { run<c_shape>(); }
// @bound l_minmax a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_minmax) { longrun<c_minmax>(); }
// @bound h_minmax copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_minmax) { run<c_minmax>(); }
// @bound l_kahan a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_kahan) { longrun<c_kahan>(); }
// @bound h_kahan copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_kahan) { run<c_kahan>(); }
// @bound l_covariance a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_covariance) { longrun<c_covariance>(); }
// @bound h_covariance copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_covariance) { run<c_covariance>(); }
// @bound l_variates a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_variates) { longrun<c_variates>(); }
// @bound h_variates copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_variates) { run<c_variates>(); }
