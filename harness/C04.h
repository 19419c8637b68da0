#include "cases.h"
#include "store.h"
template<typename C> NOINLINE void run()
{
    typedef typename C::set set;
    static int const cuts[3] = { C::N - 1, C::MIN < C::N - 1 ? C::MIN : C::N / 2, C::MIN > 3 ? 3 : 0 };
    int which = vf_choice(3), cut = cuts[which], look = cut >= C::MIN ? vf_choice(3) : 0;
    set a = C::make(0), b = C::make(which == 1), r = C::make(0);      // b: configured like a, or with larger buffers
    double prev = 0;
    for (int i = 0; i < cut; ++i) { in v = draw<C>(i, &prev); C::push(a, v); C::push(r, v); }
    if (look == 1) C::same(a, a);                   // read before saving
    store st;
    { oarchive o(st); a.serialize(o, 0); }
    { iarchive p(st); b.serialize(p, 0); vf_assert(p.n == st.n, "all_read"); }
    if (look == 2) { C::same(b, r); C::same(a, r); }  // read right after loading
    for (int i = cut; i < C::N; ++i) { in v = draw<C>(i, &prev); C::push(a, v); C::push(b, v); C::push(r, v); }
    C::same(b, r); C::same(a, r);
    vf_cover("end");
}
template<typename C> NOINLINE void longrun()
{
    typedef typename C::set set;
    int cut = vf_choice(2) ? 20 : 35, look = vf_choice(3);
    int conf = vf_choice(3); set a = C::make(LONG_C), b = C::make(conf == 0 ? LONG_C : conf == 1 ? 0 : 20), r = C::make(LONG_C);
    for (int i = 0; i < cut; ++i) { in v = long_draw(i); C::push(a, v); C::push(r, v); }
    if (look == 1) C::same(a, a);
    store st;
    { oarchive o(st); a.serialize(o, 0); }
    { iarchive p(st); b.serialize(p, 0); vf_assert(p.n == st.n, "all_read"); }
    if (look == 2) { C::same(b, r); C::same(a, r); }
    for (int i = cut; i < LONG; ++i) { in v = long_draw(i); C::push(a, v); C::push(b, v); C::push(r, v); }
    C::same(b, r); C::same(a, r);
    vf_cover("end");
}
