// Inductive steps for the P-square family: replace the state of the markers after some fixed samples by an arbitrary one.
// The stored fields are recognised by their values (which the reference knows); if they are not all found, once each, in what the
// accumulators save, the harness does not apply and the path is abandoned.
#ifndef VF_P2STEP_H
#define VF_P2STEP_H
#include "store.h"
#include "p2ref.h"
// arbitrary nondecreasing heights, total n, the inner positions around the desired ones; false if the positions collide
NOINLINE inline bool p2_any(p2ref &r, double n)
{
    static int const pat[6][4] = { { 0, 0, 0, 0 }, { 1, 1, 1, 1 }, { -1, -1, -1, -1 }, { 1, -1, 1, -1 }, { 0, 1, -1, 0 }, { -1, 0, 1, 1 } };
    int k = vf_choice(6); double q = vf_real(), t0 = r.t[0], span = n - t0;
    for (int i = 0; i < r.m; ++i)
    {
        if (i) { double d = vf_real(); vf_assume(d >= 0); q += d; }
        r.q[i] = q; r.t[i] = t0 + span * r.dt[i];
        r.n[i] = i == 0 ? t0 : i == r.m - 1 ? n : (double)(long)(r.t[i] + 0.5) + pat[k][i & 3];
    }
    for (int i = 1; i < r.m; ++i) if (!(r.n[i] > r.n[i - 1])) return false;
    return true;
}
template<typename A> NOINLINE bool p2_inject(A &a, p2ref &r, long fed, double n, int items)
{
    store st; { oarchive o(st); a.serialize(o, 0); }
    exactly(st, items);
    int c = seekz(st, fed), q = seek(st, r.q, r.m), p = seek(st, r.n, r.m), t = seek(st, r.t, r.m);
    if (!p2_any(r, n)) return false;
    st.z[c] = (long)n; for (int i = 0; i < r.m; ++i) { st.d[q + i] = r.q[i]; st.d[p + i] = r.n[i]; st.d[t + i] = r.t[i]; }
    put(a, st);
    return true;
}
#endif
