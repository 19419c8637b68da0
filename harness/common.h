#ifndef VF_COMMON_H
#define VF_COMMON_H
#include "vf.h"
#include <vector>
#include <cstddef>
#include <algorithm>
#include <boost/accumulators/accumulators.hpp>
namespace ba = boost::accumulators;

// State injection: an archive that overwrites every stored field with an arbitrary value, for inductive steps.
// `expect` is the layout (d = floating, z = size_t/integral) the harness was written for; with any other layout the
// harness does not apply and the path is abandoned (reported as not explored).
extern "C" void vf_skip(char const *why);
struct inject
{
    typedef boost::mpl::true_ is_loading; typedef boost::mpl::false_ is_saving;
    char const *expect; long maxcount;
    inject(char const *e, long m = 1L << 40) : expect(e), maxcount(m) {}
    void want(char c) { if (*expect != c) vf_skip("unexpected state layout"); else ++expect; }
    inject &operator&(double &x) { want('d'); x = vf_real(); return *this; }
    inject &operator&(float &x) { want('d'); x = (float)vf_real(); return *this; }
    inject &operator&(std::size_t &x) { want('z'); x = (std::size_t)vf_int(0, maxcount); return *this; }
    inject &operator&(int &x) { want('i'); x = (int)vf_int(-1000000, 1000000); return *this; }
    template<typename T> inject &operator&(T &x) { x.serialize(*this, 0); return *this; }
    template<typename T> inject &operator>>(T &x) { return *this & x; }
    void done() { if (*expect) vf_skip("unexpected state layout"); }
};
#endif
