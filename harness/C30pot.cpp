#define GROUP_POT
#include "C30.h"
// @bound h_pot 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_pot) { run<c_pot>(); }
// @bound h_potp 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_potp) { run<c_potp>(); }
// @bound h_potq 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_potq) { run<c_potq>(); }
// @bound h_potpq 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_potpq) { run<c_potpq>(); }
// @bound h_wpot 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wpot) { run<c_wpot>(); }
// @bound h_wpotp 0 to N samples, buffer sizes 1 to 3, every prefix read or not, copies, assignments
HARNESS(h_wpotp) { run<c_wpotp>(); }
