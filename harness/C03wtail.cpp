#define GROUP_WTAIL
#include "C03.h"
// @bound l_tweights a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_tweights) { longrun<c_tweights>(); }
// @bound h_tweights copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_tweights) { run<c_tweights>(); }
// @bound l_wtquantile a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wtquantile) { longrun<c_wtquantile>(); }
// @bound h_wtquantile copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wtquantile) { run<c_wtquantile>(); }
// @bound l_wtmean a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wtmean) { longrun<c_wtmean>(); }
// @bound h_wtmean copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wtmean) { run<c_wtmean>(); }
// @bound l_wtvm a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: copied or assigned over a used, larger or smaller set at two points, source destroyed or continuing
HARNESS(l_wtvm) { longrun<c_wtvm>(); }
// @bound h_wtvm copy constructed or assigned over a used, differently sized set at up to three points, both continuing apart, or the source destroyed
HARNESS(h_wtvm) { run<c_wtvm>(); }
