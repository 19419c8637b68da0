#define GROUP_WTAIL
#include "C02.h"
// @bound l_tweights a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_tweights) { longrun<c_tweights>(); }
// @bound h_tweights the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_tweights) { run<c_tweights>(); }
// @bound l_wtquantile a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wtquantile) { longrun<c_wtquantile>(); }
// @bound h_wtquantile the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wtquantile) { run<c_wtquantile>(); }
// @bound l_wtmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wtmean) { longrun<c_wtmean>(); }
// @bound h_wtmean the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wtmean) { run<c_wtmean>(); }
// @bound l_wtvm a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wtvm) { longrun<c_wtvm>(); }
// @bound h_wtvm the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wtvm) { run<c_wtvm>(); }
