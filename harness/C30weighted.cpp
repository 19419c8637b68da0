#define GROUP_WEIGHTED
#include "C30.h"
// @bound h_wsum 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wsum) { run<c_wsum>(); }
// @bound h_wmean 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wmean) { run<c_wmean>(); }
// @bound h_wimmediate 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wimmediate) { run<c_wimmediate>(); }
// @bound h_wmoment 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wmoment) { run<c_wmoment>(); }
// @bound h_wshape 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wshape) { run<c_wshape>(); }
// @bound h_wkahan 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wkahan) { run<c_wkahan>(); }
// @bound h_wcovariance 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wcovariance) { run<c_wcovariance>(); }
// @bound h_meanw 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_meanw) { run<c_meanw>(); }
