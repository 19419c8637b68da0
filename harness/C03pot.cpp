#define GROUP_POT
#include "C03.h"
// @bound l_pot a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_pot) { longrun<c_pot>(); }
// @bound h_pot copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_pot) { run<c_pot>(); }
// @bound l_potp a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_potp) { longrun<c_potp>(); }
// @bound h_potp copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_potp) { run<c_potp>(); }
// @bound l_potq a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_potq) { longrun<c_potq>(); }
// @bound h_potq copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_potq) { run<c_potq>(); }
// @bound l_potpq a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_potpq) { longrun<c_potpq>(); }
// @bound h_potpq copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_potpq) { run<c_potpq>(); }
// @bound l_wpot a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wpot) { longrun<c_wpot>(); }
// @bound h_wpot copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wpot) { run<c_wpot>(); }
// @bound l_wpotp a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wpotp) { longrun<c_wpotp>(); }
// @bound h_wpotp copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wpotp) { run<c_wpotp>(); }
