#define GROUP_DENSITY
#include "C30.h"
// @bound h_density 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_density) { run<c_density>(); }
// @bound h_wdensity 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wdensity) { run<c_wdensity>(); }
// @bound h_dmedian 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_dmedian) { run<c_dmedian>(); }
// @bound h_wdmedian 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wdmedian) { run<c_wdmedian>(); }
