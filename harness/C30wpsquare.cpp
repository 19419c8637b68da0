#define GROUP_WPSQUARE
#include "C30.h"
// @bound h_wp2 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wp2) { run<c_wp2>(); }
// @bound h_wcdf 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wcdf) { run<c_wcdf>(); }
// @bound h_wxp2 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wxp2) { run<c_wxp2>(); }
// @bound h_wxp2q 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wxp2q) { run<c_wxp2q>(); }
// @bound h_wmedian 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wmedian) { run<c_wmedian>(); }
// @bound h_wcmedian 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wcmedian) { run<c_wcmedian>(); }
