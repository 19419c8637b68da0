#define GROUP_TAIL
#include "C30.h"
// @bound h_tail 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_tail) { run<c_tail>(); }
// @bound h_tail4 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_tail4) { run<c_tail4>(); }
// @bound h_tvariate 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_tvariate) { run<c_tvariate>(); }
// @bound h_tquantile 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_tquantile) { run<c_tquantile>(); }
// @bound h_tmean 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_tmean) { run<c_tmean>(); }
// @bound h_tvm 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_tvm) { run<c_tvm>(); }
// @bound h_tvmr 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_tvmr) { run<c_tvmr>(); }
