#define GROUP_POT
#include "C04.h"
// @bound l_pot a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_pot) { longrun<c_pot>(); }
// @bound h_pot saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_pot) { run<c_pot>(); }
// @bound l_potp a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_potp) { longrun<c_potp>(); }
// @bound h_potp saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_potp) { run<c_potp>(); }
// @bound l_potq a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_potq) { longrun<c_potq>(); }
// @bound h_potq saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_potq) { run<c_potq>(); }
// @bound l_potpq a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_potpq) { longrun<c_potpq>(); }
// @bound h_potpq saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_potpq) { run<c_potpq>(); }
// @bound l_wpot a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wpot) { longrun<c_wpot>(); }
// @bound h_wpot saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wpot) { run<c_wpot>(); }
// @bound l_wpotp a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wpotp) { longrun<c_wpotp>(); }
// @bound h_wpotp saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wpotp) { run<c_wpotp>(); }
