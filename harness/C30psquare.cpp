#define GROUP_PSQUARE
#include "C30.h"
// @bound h_p2 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_p2) { run<c_p2>(); }
// @bound h_cdf 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_cdf) { run<c_cdf>(); }
// @bound h_xp2 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_xp2) { run<c_xp2>(); }
// @bound h_xp2q 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_xp2q) { run<c_xp2q>(); }
// @bound h_xp2q2 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_xp2q2) { run<c_xp2q2>(); }
// @bound h_median 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_median) { run<c_median>(); }
// @bound h_cmedian 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_cmedian) { run<c_cmedian>(); }
