#ifndef VF_STORE_H
#define VF_STORE_H
#include "common.h"
#include <cstring>
#include <boost/array.hpp>
#include <boost/circular_buffer.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/array_wrapper.hpp>
// An archive with the contract of Boost.Serialization archives: a sequence of typed items, read back in the order they were
// written; a block written by one save_binary is read back by one load_binary of the same size.
struct store
{
    enum { CAP = 500 };
    double d[CAP]; long z[CAP]; char kind[CAP]; unsigned char raw[2048]; int n, nraw;
    store() : n(0), nraw(0) {}
};
template<typename A> struct archive_ops
{
    A &self() { return static_cast<A &>(*this); }
    A &operator&(double &x) { self().item_d(x); return self(); }
    A &operator&(float &x) { double t = x; self().item_d(t); x = (float)t; return self(); }
    template<typename I> A &integral(I &x) { long t = (long)x; self().item_z(t); x = (I)t; return self(); }
    A &operator&(std::size_t &x) { return integral(x); }
    A &operator&(int &x) { return integral(x); }
    A &operator&(short &x) { return integral(x); }
    A &operator&(bool &x) { return integral(x); }
    template<typename T, std::size_t K> A &operator&(boost::array<T, K> &v) { for (std::size_t i = 0; i < K; ++i) *this & v[i]; return self(); }
    template<typename T, std::size_t K> A &operator&(T (&v)[K]) { for (std::size_t i = 0; i < K; ++i) *this & v[i]; return self(); }
    template<typename T, typename U> A &operator&(std::pair<T, U> &p) { *this & p.first; *this & p.second; return self(); }
    template<typename T> A &operator&(std::vector<T> &v)
    {
        std::size_t k = v.size(); *this & k;
        if (A::is_loading::value) v.resize((std::size_t)vf_concretize((long)k));
        for (std::size_t i = 0; i < v.size(); ++i) *this & v[i];
        return self();
    }
    template<typename T> A &operator&(boost::circular_buffer<T> &b) { boost::serialization::serialize(self(), b, 0); return self(); }
    template<typename T> A &operator&(boost::serialization::nvp<T> const &x) { return *this & const_cast<T &>(x.const_value()); }
    template<typename T> A &operator&(boost::serialization::array_wrapper<T> const &x) { for (std::size_t i = 0; i < x.count(); ++i) *this & x.address()[i]; return self(); }
    A &operator&(unsigned &x) { return integral(x); }
    A &operator&(long &x) { return integral(x); }
    A &operator&(char &x) { return integral(x); }
    A &operator&(unsigned char &x) { return integral(x); }
    A &operator&(unsigned short &x) { return integral(x); }
    template<typename T> typename boost::disable_if<boost::is_arithmetic<T>, A &>::type operator&(T &x) { x.serialize(self(), 0); return self(); }
};
struct oarchive : archive_ops<oarchive>
{
    typedef boost::mpl::true_ is_saving; typedef boost::mpl::false_ is_loading;
    store &s; oarchive(store &t) : s(t) {}
    void item_d(double &x) { vf_assert(s.n < store::CAP, "capacity"); s.kind[s.n] = 'd'; s.d[s.n++] = x; }
    void item_z(long &x) { vf_assert(s.n < store::CAP, "capacity"); s.kind[s.n] = 'z'; s.z[s.n++] = x; }
    template<typename T> oarchive &operator<<(T const &x) { return *this & const_cast<T &>(x); }
    void save_binary(void const *p, std::size_t k)
    {
        vf_assert(s.n < store::CAP && s.nraw + k <= sizeof s.raw, "capacity");
        s.kind[s.n] = 'b'; s.z[s.n++] = (long)k; if (k) std::memcpy(s.raw + s.nraw, p, k); s.nraw += (int)k;
    }
    unsigned get_library_version() const { return 19; }
};
struct iarchive : archive_ops<iarchive>
{
    typedef boost::mpl::false_ is_saving; typedef boost::mpl::true_ is_loading;
    store &s; int n, nraw; iarchive(store &t) : s(t), n(0), nraw(0) {}
    void want(char c) { vf_assert(n < s.n && s.kind[n] == c, "layout"); }
    void item_d(double &x) { want('d'); x = s.d[n++]; }
    void item_z(long &x) { want('z'); x = s.z[n++]; }
    template<typename T> iarchive &operator>>(T &x) { return *this & x; }
    void load_binary(void *p, std::size_t k)
    {
        want('b'); vf_assert(s.z[n] == (long)k, "block"); ++n; if (k) std::memcpy(p, s.raw + nraw, k); nraw += (int)k;
    }
    unsigned get_library_version() const { return 19; }
};
// The stored state of a set, for inductive steps: saved after some samples, edited, loaded back. `expect` lists the kinds of the items
// (d floating, z integral); with any other layout the harness does not apply and the path is abandoned.
template<typename Set> NOINLINE void take(Set &a, store &st, char const *expect)
{
    { oarchive o(st); a.serialize(o, 0); }
    int i = 0; for (; i < st.n && expect[i]; ++i) if (st.kind[i] != expect[i]) vf_skip("unexpected state layout");
    if (i < st.n || expect[i]) vf_skip("unexpected state layout");
}
template<typename Set> NOINLINE void put(Set &a, store &st) { iarchive p(st); a.serialize(p, 0); }
// the place of known values among the stored items, which must be unique
inline bool off(double x, double y) { return x - y > 1e-9 || y - x > 1e-9; }
NOINLINE inline int seek(store const &st, double const *v, int m)
{
    int at = -1;
    for (int i = 0; i + m <= st.n; ++i)
    {
        bool ok = true;
        for (int j = 0; j < m && ok; ++j) ok = st.kind[i + j] == 'd' && !off(st.d[i + j], v[j]);
        if (ok) { if (at >= 0) vf_skip("ambiguous state layout"); at = i; }
    }
    if (at < 0) vf_skip("unexpected state layout");
    return at;
}
// with more or less stored than the known state, an edit of the known items need not be a consistent state
NOINLINE inline void exactly(store const &st, int items) { if (st.n != items) vf_skip("unexpected state layout"); }
NOINLINE inline int seekz(store const &st, long v)
{
    int at = -1;
    for (int i = 0; i < st.n; ++i) if (st.kind[i] == 'z' && st.z[i] == v) { if (at >= 0) vf_skip("ambiguous state layout"); at = i; }
    if (at < 0) vf_skip("unexpected state layout");
    return at;
}
#endif
