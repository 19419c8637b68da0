#define GROUP_BASIC
#include "C02.h"
// @bound l_sum a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_sum) { longrun<c_sum>(); }
// @bound h_sum the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_sum) { run<c_sum>(); }
// @bound l_immediate a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_immediate) { longrun<c_immediate>(); }
// @bound h_immediate the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_immediate) { run<c_immediate>(); }
// @bound l_lazy a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_lazy) { longrun<c_lazy>(); }
// @bound h_lazy the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_lazy) { run<c_lazy>(); }
// @bound l_shape a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_shape) { longrun<c_shape>(); }
// @bound h_shape the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_shape) { run<c_shape>(); }
// @bound l_minmax a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_minmax) { longrun<c_minmax>(); }
// @bound h_minmax the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_minmax) { run<c_minmax>(); }
// @bound l_kahan a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_kahan) { longrun<c_kahan>(); }
// @bound h_kahan the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_kahan) { run<c_kahan>(); }
// @bound l_covariance a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_covariance) { longrun<c_covariance>(); }
// @bound h_covariance the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_covariance) { run<c_covariance>(); }
// @bound l_variates a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_variates) { longrun<c_variates>(); }
// @bound h_variates the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_variates) { run<c_variates>(); }
