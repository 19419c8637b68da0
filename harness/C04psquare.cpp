#define GROUP_PSQUARE
#include "C04.h"
// @bound l_p2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_p2) { longrun<c_p2>(); }
// @bound h_p2 saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_p2) { run<c_p2>(); }
// @bound l_cdf a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_cdf) { longrun<c_cdf>(); }
// @bound h_cdf saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_cdf) { run<c_cdf>(); }
// @bound l_xp2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_xp2) { longrun<c_xp2>(); }
// @bound h_xp2 saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_xp2) { run<c_xp2>(); }
// @bound l_xp2q a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_xp2q) { longrun<c_xp2q>(); }
// @bound h_xp2q saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_xp2q) { run<c_xp2q>(); }
// @bound l_xp2q2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_xp2q2) { longrun<c_xp2q2>(); }
// @bound h_xp2q2 saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_xp2q2) { run<c_xp2q2>(); }
// @bound l_median a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_median) { longrun<c_median>(); }
// @bound h_median saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_median) { run<c_median>(); }
// @bound l_cmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_cmedian) { longrun<c_cmedian>(); }
// @bound h_cmedian saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_cmedian) { run<c_cmedian>(); }
