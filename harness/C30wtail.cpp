#define GROUP_WTAIL
#include "C30.h"
// @bound h_tweights 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_tweights) { run<c_tweights>(); }
// @bound h_wtquantile 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wtquantile) { run<c_wtquantile>(); }
// @bound h_wtmean 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wtmean) { run<c_wtmean>(); }
// @bound h_wtvm 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wtvm) { run<c_wtvm>(); }
