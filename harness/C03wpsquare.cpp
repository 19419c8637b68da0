#define GROUP_WPSQUARE
#include "C03.h"
// @bound l_wp2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wp2) { longrun<c_wp2>(); }
// @bound h_wp2 copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wp2) { run<c_wp2>(); }
// @bound l_wcdf a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wcdf) { longrun<c_wcdf>(); }
// @bound h_wcdf copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wcdf) { run<c_wcdf>(); }
// @bound l_wxp2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wxp2) { longrun<c_wxp2>(); }
// @bound h_wxp2 copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wxp2) { run<c_wxp2>(); }
// @bound l_wxp2q a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wxp2q) { longrun<c_wxp2q>(); }
// @bound h_wxp2q copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wxp2q) { run<c_wxp2q>(); }
// @bound l_wmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wmedian) { longrun<c_wmedian>(); }
// @bound h_wmedian copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wmedian) { run<c_wmedian>(); }
// @bound l_wcmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wcmedian) { longrun<c_wcmedian>(); }
// @bound h_wcmedian copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wcmedian) { run<c_wcmedian>(); }
