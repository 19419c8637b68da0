#ifndef VF_FRESH_H
#define VF_FRESH_H
#include "vf.h"
template<typename T> inline T fresh();
template<> inline double fresh<double>() { return vf_real(); }
template<> inline float fresh<float>() { return (float)vf_real(); }
template<> inline int fresh<int>() { return (int)vf_int(-1000, 1000); }
template<> inline long fresh<long>() { return vf_int(-1000, 1000); }
template<> inline unsigned fresh<unsigned>() { return (unsigned)vf_int(0, 4000000); }
template<> inline short fresh<short>() { return (short)vf_int(-100, 100); }
template<> inline unsigned char fresh<unsigned char>() { return (unsigned char)vf_int(0, 20); }
#endif
