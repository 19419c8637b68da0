#define GROUP_PSQUARE
#include "C03.h"
// @bound l_p2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_p2) { longrun<c_p2>(); }
// @bound h_p2 copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_p2) { run<c_p2>(); }
// @bound l_cdf a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_cdf) { longrun<c_cdf>(); }
// @bound h_cdf copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_cdf) { run<c_cdf>(); }
// @bound l_xp2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_xp2) { longrun<c_xp2>(); }
// @bound h_xp2 copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_xp2) { run<c_xp2>(); }
// @bound l_xp2q a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_xp2q) { longrun<c_xp2q>(); }
// @bound h_xp2q copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_xp2q) { run<c_xp2q>(); }
// @bound l_xp2q2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_xp2q2) { longrun<c_xp2q2>(); }
// @bound h_xp2q2 copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_xp2q2) { run<c_xp2q2>(); }
// @bound l_median a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_median) { longrun<c_median>(); }
// @bound h_median copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_median) { run<c_median>(); }
// @bound l_cmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_cmedian) { longrun<c_cmedian>(); }
// @bound h_cmedian copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_cmedian) { run<c_cmedian>(); }
