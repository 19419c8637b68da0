#define GROUP_WEIGHTED
#include "C02.h"
// @bound l_wsum a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wsum) { longrun<c_wsum>(); }
// @bound h_wsum the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wsum) { run<c_wsum>(); }
// @bound l_wmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wmean) { longrun<c_wmean>(); }
// @bound h_wmean the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wmean) { run<c_wmean>(); }
// @bound l_wimmediate a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wimmediate) { longrun<c_wimmediate>(); }
// @bound h_wimmediate the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wimmediate) { run<c_wimmediate>(); }
// @bound l_wmoment a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wmoment) { longrun<c_wmoment>(); }
// @bound h_wmoment the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wmoment) { run<c_wmoment>(); }
// @bound l_wshape a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wshape) { longrun<c_wshape>(); }
// @bound h_wshape the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wshape) { run<c_wshape>(); }
// @bound l_wkahan a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wkahan) { longrun<c_wkahan>(); }
// @bound h_wkahan the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wkahan) { run<c_wkahan>(); }
// @bound l_wcovariance a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wcovariance) { longrun<c_wcovariance>(); }
// @bound h_wcovariance the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wcovariance) { run<c_wcovariance>(); }
// @bound l_meanw a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_meanw) { longrun<c_meanw>(); }
// @bound h_meanw the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_meanw) { run<c_meanw>(); }
