#define GROUP_TAIL
#include "C02.h"
// @bound l_tail a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_tail) { longrun<c_tail>(); }
// @bound h_tail the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_tail) { run<c_tail>(); }
// @bound l_tail4 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_tail4) { longrun<c_tail4>(); }
// @bound h_tail4 the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_tail4) { run<c_tail4>(); }
// @bound l_tvariate a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_tvariate) { longrun<c_tvariate>(); }
// @bound h_tvariate the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_tvariate) { run<c_tvariate>(); }
// @bound l_tquantile a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_tquantile) { longrun<c_tquantile>(); }
// @bound h_tquantile the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_tquantile) { run<c_tquantile>(); }
// @bound l_tmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_tmean) { longrun<c_tmean>(); }
// @bound h_tmean the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_tmean) { run<c_tmean>(); }
// @bound l_tvm a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_tvm) { longrun<c_tvm>(); }
// @bound h_tvm the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_tvm) { run<c_tvm>(); }
// @bound l_tvmr a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_tvmr) { longrun<c_tvmr>(); }
// @bound h_tvmr the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_tvmr) { run<c_tvmr>(); }
