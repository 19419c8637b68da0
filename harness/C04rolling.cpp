#define GROUP_ROLLING
#include "C04.h"
// @bound l_window a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_window) { longrun<c_window>(); }
// @bound h_window saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_window) { run<c_window>(); }
// @bound l_rsum a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_rsum) { longrun<c_rsum>(); }
// @bound h_rsum saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_rsum) { run<c_rsum>(); }
// @bound l_rmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_rmean) { longrun<c_rmean>(); }
// @bound h_rmean saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_rmean) { run<c_rmean>(); }
// @bound l_rmean_lazy a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_rmean_lazy) { longrun<c_rmean_lazy>(); }
// @bound h_rmean_lazy saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_rmean_lazy) { run<c_rmean_lazy>(); }
// @bound l_rmoment a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_rmoment) { longrun<c_rmoment>(); }
// @bound h_rmoment saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_rmoment) { run<c_rmoment>(); }
// @bound l_rvariance a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_rvariance) { longrun<c_rvariance>(); }
// @bound h_rvariance saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_rvariance) { run<c_rvariance>(); }
// @bound l_rvariance_lazy a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_rvariance_lazy) { longrun<c_rvariance_lazy>(); }
// @bound h_rvariance_lazy saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_rvariance_lazy) { run<c_rvariance_lazy>(); }
