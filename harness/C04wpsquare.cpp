#define GROUP_WPSQUARE
#include "C04.h"
// @bound l_wp2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wp2) { longrun<c_wp2>(); }
// @bound h_wp2 saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wp2) { run<c_wp2>(); }
// @bound l_wcdf a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wcdf) { longrun<c_wcdf>(); }
// @bound h_wcdf saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wcdf) { run<c_wcdf>(); }
// @bound l_wxp2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wxp2) { longrun<c_wxp2>(); }
// @bound h_wxp2 saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wxp2) { run<c_wxp2>(); }
// @bound l_wxp2q a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wxp2q) { longrun<c_wxp2q>(); }
// @bound h_wxp2q saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wxp2q) { run<c_wxp2q>(); }
// @bound l_wmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wmedian) { longrun<c_wmedian>(); }
// @bound h_wmedian saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wmedian) { run<c_wmedian>(); }
// @bound l_wcmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wcmedian) { longrun<c_wcmedian>(); }
// @bound h_wcmedian saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wcmedian) { run<c_wcmedian>(); }
