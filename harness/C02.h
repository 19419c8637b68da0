#include "cases.h"
// b is read only at the end; a is read at any subset of the last three points before the end as well
template<typename C> NOINLINE void run()
{
    typename C::set a = C::make(0), b = C::make(0);
    int first = C::MIN - 1 > C::N - 4 ? C::MIN - 1 : C::N - 4;
    int points = C::N - 1 - first, mask = 1 + vf_choice((1 << points) - 1);
    double prev = 0;
    for (int i = 0; i < C::N; ++i)
    {
        in v = draw<C>(i, &prev);
        C::push(a, v); C::push(b, v);
        if (i >= first && i + 1 < C::N && (mask >> (i - first) & 1)) C::same(a, a);
    }
    C::same(a, b); C::same(b, a);
    vf_cover("end");
}
template<typename C> NOINLINE void longrun()
{
    typename C::set a = C::make(LONG_C), b = C::make(LONG_C);
    static int const at[3] = { 20, 33, 37 };
    int mask = 1 + vf_choice(7);
    for (int i = 0; i < LONG; ++i)
    {
        in v = long_draw(i);
        C::push(a, v); C::push(b, v);
        for (int k = 0; k < 3; ++k) if (i == at[k] && (mask >> k & 1)) C::same(a, a);
    }
    C::same(a, b);
    vf_cover("end");
}
