#define GROUP_DENSITY
#include "C03.h"
// @bound l_density a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_density) { longrun<c_density>(); }
// @bound h_density copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_density) { run<c_density>(); }
// @bound l_wdensity a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wdensity) { longrun<c_wdensity>(); }
// @bound h_wdensity copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wdensity) { run<c_wdensity>(); }
// @bound l_dmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_dmedian) { longrun<c_dmedian>(); }
// @bound h_dmedian copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_dmedian) { run<c_dmedian>(); }
// @bound l_wdmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wdmedian) { longrun<c_wdmedian>(); }
// @bound h_wdmedian copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wdmedian) { run<c_wdmedian>(); }
