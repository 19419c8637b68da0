#define GROUP_BASIC
#include "C04.h"
// @bound l_sum a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_sum) { longrun<c_sum>(); }
// @bound h_sum saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_sum) { run<c_sum>(); }
// @bound l_immediate a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_immediate) { longrun<c_immediate>(); }
// @bound h_immediate saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_immediate) { run<c_immediate>(); }
// @bound l_lazy a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_lazy) { longrun<c_lazy>(); }
// @bound h_lazy saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_lazy) { run<c_lazy>(); }
// @bound l_shape a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_shape) { longrun<c_shape>(); }
// @bound h_shape saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_shape) { run<c_shape>(); }
// @bound l_minmax a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_minmax) { longrun<c_minmax>(); }
// @bound h_minmax saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_minmax) { run<c_minmax>(); }
// @bound l_kahan a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_kahan) { longrun<c_kahan>(); }
// @bound h_kahan saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_kahan) { run<c_kahan>(); }
// @bound l_covariance a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_covariance) { longrun<c_covariance>(); }
// @bound h_covariance saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_covariance) { run<c_covariance>(); }
// @bound l_variates a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_variates) { longrun<c_variates>(); }
// @bound h_variates saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_variates) { run<c_variates>(); }
