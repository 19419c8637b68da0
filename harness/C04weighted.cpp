#define GROUP_WEIGHTED
#include "C04.h"
// @bound l_wsum a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wsum) { longrun<c_wsum>(); }
// @bound h_wsum saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wsum) { run<c_wsum>(); }
// @bound l_wmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wmean) { longrun<c_wmean>(); }
// @bound h_wmean saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wmean) { run<c_wmean>(); }
// @bound l_wimmediate a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wimmediate) { longrun<c_wimmediate>(); }
// @bound h_wimmediate saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wimmediate) { run<c_wimmediate>(); }
// @bound l_wmoment a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wmoment) { longrun<c_wmoment>(); }
// @bound h_wmoment saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wmoment) { run<c_wmoment>(); }
// @bound l_wshape a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wshape) { longrun<c_wshape>(); }
// @bound h_wshape saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wshape) { run<c_wshape>(); }
// @bound l_wkahan a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wkahan) { longrun<c_wkahan>(); }
// @bound h_wkahan saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wkahan) { run<c_wkahan>(); }
// @bound l_wcovariance a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_wcovariance) { longrun<c_wcovariance>(); }
// @bound h_wcovariance saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_wcovariance) { run<c_wcovariance>(); }
// @bound l_meanw a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: saved and loaded at two points, read before, after or not
HARNESS(l_meanw) { longrun<c_meanw>(); }
// @bound h_meanw saved and loaded at up to three points, read before or not, both continuing
HARNESS(h_meanw) { run<c_meanw>(); }
