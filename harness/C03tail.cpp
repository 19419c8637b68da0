#define GROUP_TAIL
#include "C03.h"
// @bound l_tail a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_tail) { longrun<c_tail>(); }
// @bound h_tail copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_tail) { run<c_tail>(); }
// @bound l_tail4 a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_tail4) { longrun<c_tail4>(); }
// @bound h_tail4 copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_tail4) { run<c_tail4>(); }
// @bound l_tvariate a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_tvariate) { longrun<c_tvariate>(); }
// @bound h_tvariate copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_tvariate) { run<c_tvariate>(); }
// @bound l_tquantile a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_tquantile) { longrun<c_tquantile>(); }
// @bound h_tquantile copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_tquantile) { run<c_tquantile>(); }
// @bound l_tmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_tmean) { longrun<c_tmean>(); }
// @bound h_tmean copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_tmean) { run<c_tmean>(); }
// @bound l_tvm a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_tvm) { longrun<c_tvm>(); }
// @bound h_tvm copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_tvm) { run<c_tvm>(); }
// @bound l_tvmr a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_tvmr) { longrun<c_tvmr>(); }
// @bound h_tvmr copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_tvmr) { run<c_tvmr>(); }
