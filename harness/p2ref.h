// The P-square algorithm as published (Jain and Chlamtac 1985), written from the paper: marker heights q, positions n,
// desired positions t with increments dt, for any number of markers; samples of weight w advance positions by w.
#ifndef VF_P2REF_H
#define VF_P2REF_H
#include "vf.h"
struct p2ref
{
    int m; double q[64], n[64], t[64], dt[64];
    int seen;
    NOINLINE void start(int m_) { m = m_; seen = 0; }
    // one P-square adjustment of marker i
    NOINLINE void adjust(int i)
    {
        double d = t[i] - n[i]; int s;
        if (d >= 1 && n[i + 1] - n[i] > 1) s = 1;
        else if (d <= -1 && n[i] - n[i - 1] > 1) s = -1;
        else return;
        double up = n[i + 1] - n[i], dn = n[i] - n[i - 1];
        double h = q[i] + s / (up + dn) * ((dn + s) * (q[i + 1] - q[i]) / up + (up - s) * (q[i] - q[i - 1]) / dn);
        if (q[i - 1] < h && h < q[i + 1]) q[i] = h;
        else q[i] += s * (q[i + s] - q[i]) / (n[i + s] - n[i]);
        n[i] += s;
    }
    NOINLINE void add(double x)
    {
        if (seen < m)
        {
            int j = seen++;
            while (j > 0 && x < q[j - 1]) { q[j] = q[j - 1]; --j; }
            q[j] = x; n[seen - 1] = seen;
            return;
        }
        int k;                                   // cell: q[k] <= x < q[k+1]
        if (x < q[0]) { q[0] = x; k = 0; }
        else if (x >= q[m - 1]) { q[m - 1] = x; k = m - 2; }
        else { k = m - 2; while (x < q[k]) --k; }
        for (int i = k + 1; i < m; ++i) n[i] += 1;
        for (int i = 0; i < m; ++i) t[i] += dt[i];
        for (int i = 1; i < m - 1; ++i) adjust(i);
    }
};
// five markers for one quantile
NOINLINE inline void p2_quantile(p2ref &r, double p)
{
    r.start(5);
    r.dt[0] = 0; r.dt[1] = p / 2; r.dt[2] = p; r.dt[3] = (1 + p) / 2; r.dt[4] = 1;
    for (int i = 0; i < 5; ++i) r.t[i] = 1 + 4 * r.dt[i];
}
#endif
