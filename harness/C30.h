#include "cases.h"
#include "store.h"
// an archive that looks at every value it is given
struct looking : archive_ops<looking>
{
    typedef boost::mpl::true_ is_saving; typedef boost::mpl::false_ is_loading;
    void item_d(double &x) { vf_eq(x, x, "saved"); }
    void item_z(long &x) { vf_eq((double)x, (double)x, "saved"); }
    template<typename T> looking &operator<<(T const &x) { return *this & const_cast<T &>(x); }
    void save_binary(void const *, std::size_t) {}
    unsigned get_library_version() const { return 19; }
};
template<typename C> NOINLINE void touch(typename C::set const &a) { C::same(a, a); }
template<typename C> NOINLINE void run()
{
    typedef typename C::set set;
    int c = vf_choice(3) - 1, n = vf_choice(C::N + 1), how = vf_choice(3);
    set a = C::make(c);
    double prev = 0;
    for (int i = 0; i < n; ++i)
    {
        if (how == 1) touch<C>(a);
        in v = draw<C>(i, &prev); C::push(a, v);
        if (how == 2 && i == n / 2) { set b(a); a = C::make(1 - c); a = b; touch<C>(b); }
    }
    { looking o; a.serialize(o, 0); }
    touch<C>(a);
    vf_cover("end");
}
