#define GROUP_POT
#include "C02.h"
// @bound l_pot a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_pot) { longrun<c_pot>(); }
// @bound h_pot the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_pot) { run<c_pot>(); }
// @bound l_potp a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_potp) { longrun<c_potp>(); }
// @bound h_potp the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_potp) { run<c_potp>(); }
// @bound l_potq a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_potq) { longrun<c_potq>(); }
// @bound h_potq the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_potq) { run<c_potq>(); }
// @bound l_potpq a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_potpq) { longrun<c_potpq>(); }
// @bound h_potpq the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_potpq) { run<c_potpq>(); }
// @bound l_wpot a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wpot) { longrun<c_wpot>(); }
// @bound h_wpot the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wpot) { run<c_wpot>(); }
// @bound l_wpotp a stream of 40 samples, one (thorough two) arbitrary, buffers of 16: read at every non-empty subset of three earlier points
HARNESS(l_wpotp) { longrun<c_wpotp>(); }
// @bound h_wpotp the stream read at every non-empty subset of up to three earlier points, against one read only at the end
HARNESS(h_wpotp) { run<c_wpotp>(); }
