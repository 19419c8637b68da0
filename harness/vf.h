// Harness interface.  Under the symbolic executor these are intrinsics; vf_native.cpp implements them for replay.
#ifndef VF_H
#define VF_H
#include <cstddef>
extern "C" {
  double vf_real(void);                       // arbitrary real number
  double vf_real_in(double lo, double hi);    // arbitrary real number in [lo,hi]
  long   vf_int(long lo, long hi);            // arbitrary integer in [lo,hi]
  int    vf_choice(int n);                    // arbitrary integer in [0,n), explored as n separate paths
  void   vf_assume(bool c);
  void   vf_assert(bool c, char const *tag);
  void   vf_eq(double a, double b, char const *tag);   // a == b (both NaN counts as equal)
  void   vf_cover(char const *tag);           // must be reached on some completed path
  long   vf_concretize(long v);               // fork over the values of v
}
#ifdef VF_THOROUGH
#define VF_T(q, t) (t)
#else
#define VF_T(q, t) (q)
#endif
#define HARNESS(name) extern "C" void name()
#define NOINLINE __attribute__((noinline))
#endif
