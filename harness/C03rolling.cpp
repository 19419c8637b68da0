#define GROUP_ROLLING
#include "C03.h"
// @bound l_window a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_window) { longrun<c_window>(); }
// @bound h_window copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_window) { run<c_window>(); }
// @bound l_rsum a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_rsum) { longrun<c_rsum>(); }
// @bound h_rsum copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_rsum) { run<c_rsum>(); }
// @bound l_rmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_rmean) { longrun<c_rmean>(); }
// @bound h_rmean copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_rmean) { run<c_rmean>(); }
// @bound l_rmean_lazy a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_rmean_lazy) { longrun<c_rmean_lazy>(); }
// @bound h_rmean_lazy copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_rmean_lazy) { run<c_rmean_lazy>(); }
// @bound l_rmoment a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_rmoment) { longrun<c_rmoment>(); }
// @bound h_rmoment copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_rmoment) { run<c_rmoment>(); }
// @bound l_rvariance a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_rvariance) { longrun<c_rvariance>(); }
// @bound h_rvariance copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_rvariance) { run<c_rvariance>(); }
// @bound l_rvariance_lazy a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_rvariance_lazy) { longrun<c_rvariance_lazy>(); }
// @bound h_rvariance_lazy copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_rvariance_lazy) { run<c_rvariance_lazy>(); }
