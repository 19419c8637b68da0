#define GROUP_WPSQUARE
#include "C02.h"
// @bound l_wp2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wp2) { longrun<c_wp2>(); }
// @bound h_wp2 the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wp2) { run<c_wp2>(); }
// @bound l_wcdf a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wcdf) { longrun<c_wcdf>(); }
// @bound h_wcdf the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wcdf) { run<c_wcdf>(); }
// @bound l_wxp2 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wxp2) { longrun<c_wxp2>(); }
// @bound h_wxp2 the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wxp2) { run<c_wxp2>(); }
// @bound l_wxp2q a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wxp2q) { longrun<c_wxp2q>(); }
// @bound h_wxp2q the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wxp2q) { run<c_wxp2q>(); }
// @bound l_wmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wmedian) { longrun<c_wmedian>(); }
// @bound h_wmedian the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wmedian) { run<c_wmedian>(); }
// @bound l_wcmedian a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wcmedian) { longrun<c_wcmedian>(); }
// @bound h_wcmedian the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wcmedian) { run<c_wcmedian>(); }
