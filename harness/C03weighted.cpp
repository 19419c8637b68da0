#define GROUP_WEIGHTED
#include "C03.h"
// @bound l_wsum a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wsum) { longrun<c_wsum>(); }
// @bound h_wsum copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wsum) { run<c_wsum>(); }
// @bound l_wmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wmean) { longrun<c_wmean>(); }
// @bound h_wmean copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wmean) { run<c_wmean>(); }
// @bound l_wimmediate a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wimmediate) { longrun<c_wimmediate>(); }
// @bound h_wimmediate copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wimmediate) { run<c_wimmediate>(); }
// @bound l_wmoment a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wmoment) { longrun<c_wmoment>(); }
// @bound h_wmoment copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wmoment) { run<c_wmoment>(); }
// @bound l_wshape a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wshape) { longrun<c_wshape>(); }
// @bound h_wshape copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wshape) { run<c_wshape>(); }
// @bound l_wkahan a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wkahan) { longrun<c_wkahan>(); }
// @bound h_wkahan copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wkahan) { run<c_wkahan>(); }
// @bound l_wcovariance a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wcovariance) { longrun<c_wcovariance>(); }
// @bound h_wcovariance copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wcovariance) { run<c_wcovariance>(); }
// @bound l_meanw a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_meanw) { longrun<c_meanw>(); }
// @bound h_meanw copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_meanw) { run<c_meanw>(); }
