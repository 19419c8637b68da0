#define GROUP_BASIC
#include "C30.h"
// @bound h_sum 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_sum) { run<c_sum>(); }
// @bound h_immediate 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_immediate) { run<c_immediate>(); }
// @bound h_lazy 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_lazy) { run<c_lazy>(); }
// @bound h_shape 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_shape) { run<c_shape>(); }
// @bound h_minmax 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_minmax) { run<c_minmax>(); }
// @bound h_kahan 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_kahan) { run<c_kahan>(); }
// @bound h_covariance 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_covariance) { run<c_covariance>(); }
// @bound h_variates 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_variates) { run<c_variates>(); }
