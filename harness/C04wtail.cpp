#define GROUP_WTAIL
#include "C04.h"
// @bound l_tweights a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_tweights) { longrun<c_tweights>(); }
// @bound h_tweights saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_tweights) { run<c_tweights>(); }
// @bound l_wtquantile a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wtquantile) { longrun<c_wtquantile>(); }
// @bound h_wtquantile saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wtquantile) { run<c_wtquantile>(); }
// @bound l_wtmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wtmean) { longrun<c_wtmean>(); }
// @bound h_wtmean saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wtmean) { run<c_wtmean>(); }
// @bound l_wtvm a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wtvm) { longrun<c_wtvm>(); }
// @bound h_wtvm saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wtvm) { run<c_wtvm>(); }
