#define GROUP_DENSITY
#include "C04.h"
// @bound l_density a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_density) { longrun<c_density>(); }
// @bound h_density saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_density) { run<c_density>(); }
// @bound l_wdensity a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wdensity) { longrun<c_wdensity>(); }
// @bound h_wdensity saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wdensity) { run<c_wdensity>(); }
// @bound l_dmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_dmedian) { longrun<c_dmedian>(); }
// @bound h_dmedian saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_dmedian) { run<c_dmedian>(); }
// @bound l_wdmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wdmedian) { longrun<c_wdmedian>(); }
// @bound h_wdmedian saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wdmedian) { run<c_wdmedian>(); }
