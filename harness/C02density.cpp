#define GROUP_DENSITY
#include "C02.h"
// @bound l_density a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_density) { longrun<c_density>(); }
// @bound h_density the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_density) { run<c_density>(); }
// @bound l_wdensity a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wdensity) { longrun<c_wdensity>(); }
// @bound h_wdensity the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wdensity) { run<c_wdensity>(); }
// @bound l_dmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_dmedian) { longrun<c_dmedian>(); }
// @bound h_dmedian the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_dmedian) { run<c_dmedian>(); }
// @bound l_wdmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wdmedian) { longrun<c_wdmedian>(); }
// @bound h_wdmedian the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wdmedian) { run<c_wdmedian>(); }
