#define GROUP_ROLLING
#include "C30.h"
// @bound h_window 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_window) { run<c_window>(); }
// @bound h_rsum 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_rsum) { run<c_rsum>(); }
// @bound h_rmean 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_rmean) { run<c_rmean>(); }
// @bound h_rmean_lazy 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_rmean_lazy) { run<c_rmean_lazy>(); }
// @bound h_rmoment 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_rmoment) { run<c_rmoment>(); }
// @bound h_rvariance 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_rvariance) { run<c_rvariance>(); }
// @bound h_rvariance_lazy 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_rvariance_lazy) { run<c_rvariance_lazy>(); }
