#include "cases.h"
// stream length (quick: one less for the long ones)
template<typename C> struct len { enum { N = VF_T(C::N > 4 && C::N > C::MIN + 1 ? C::N - 1 : C::N, C::N) }; };
template<typename C> NOINLINE void feed(typename C::set &a, typename C::set &r, int from, double prev, int any)
{
    for (int i = from; i < len<C>::N; ++i)
    {
        in v = { prev + 3, wv[(i + 3) % 8], (double)i };
        if (any) v = draw<C>(i, &prev); else prev += 3;
        C::push(a, v); C::push(r, v);
    }
}
// after a common part the original and the copy go separate ways, one of them (thorough: both) with arbitrary samples; each must match a set that received the same stream itself
template<typename C> NOINLINE void run()
{
    typedef typename C::set set;
    static int const cuts[3] = { len<C>::N - 1, C::MIN < len<C>::N - 1 ? C::MIN : len<C>::N / 2, C::MIN > 3 ? 3 : 0 };
    int cut = cuts[vf_choice(3)], how = vf_choice(4), look = cut >= C::MIN ? vf_choice(2) : 0;
    set *a = new set(C::make(0)); set ra = C::make(0), rb = C::make(0), b0 = C::make(how == 1);
    double prev = 0; int any = VF_T(vf_choice(2), 2);
    for (int i = 0; i < cut; ++i) { in v = draw<C>(i, &prev); C::push(*a, v); C::push(ra, v); C::push(rb, v); }
    if (look) C::same(*a, *a);
    if (how == 1) { in v = { 5, 1, 7 }; C::push(b0, v); v.x = 3; C::push(b0, v); v.x = 9; C::push(b0, v); }
    if (how == 0 || how == 3)
    {
        set b(*a);
        if (look) C::same(b, ra);
        if (how == 3) { delete a; a = 0; }
        else { feed<C>(*a, ra, cut, prev, any != 1); if (!look) C::same(*a, ra); }
        feed<C>(b, rb, cut, prev, any != 0);
        C::same(b, rb);
    }
    else
    {
        b0 = *a;                                    // how 1: over a used set with larger buffers; how 2: over a fresh one
        if (look) C::same(b0, ra);
        feed<C>(b0, rb, cut, prev, any != 0);
        if (look) C::same(b0, rb);
        feed<C>(*a, ra, cut, prev, any != 1);
        C::same(b0, rb);
    }
    if (a) { C::same(*a, ra); delete a; }
    vf_cover("end");
}
template<typename C> NOINLINE void longrun()
{
    typedef typename C::set set;
    int cut = vf_choice(2) ? 20 : 35, how = vf_choice(3), look = vf_choice(2);
    set *a = new set(C::make(LONG_C)); set ra = C::make(LONG_C), b0 = C::make(how == 1 ? 20 : how == 2 ? 0 : LONG_C);
    for (int i = 0; i < cut; ++i) { in v = long_draw(i); C::push(*a, v); C::push(ra, v); if (how && i < 30) { in u = { 3. * i, 1, 7 }; C::push(b0, u); } }
    if (look) C::same(*a, *a);
    if (how == 0) { set b(*a); delete a; a = new set(b); in u = { 200, 1, 3 }; C::push(b, u); }
    else { b0 = *a; in u = { 200, 1, 3 }; C::push(*a, u); *a = b0; C::push(b0, u); }
    if (look) C::same(*a, ra);
    for (int i = cut; i < LONG; ++i) { in v = long_draw(i); C::push(*a, v); C::push(ra, v); }
    C::same(*a, ra);
    delete a;
    vf_cover("end");
}
