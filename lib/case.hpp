// More generators: problems built around a chosen iterate.
#pragma once
#include "qp.hpp"
// Data for which the point (x,y,z,s) has residual norms equal to chosen multiples of the tolerances.
// q may be of any size; returns the multiples used through the labels.
struct Mult { double rx, ry, rz, mu; };
inline double gen_mult(Tape &t)
{
    static const double v[] = {0.3, 0.0, 0.5, 1.1, 1.5, 3.0, 30.0, 1000.0};
    return v[t.pick({6, 4, 2, 1, 1, 2, 2, 1})];
}
inline Mult gen_at_point(Tape &t, QPD &q, Vec &x, Vec &y, Vec &z, Vec &s, double reltol, double abstol, Ctx &c)
{
    Mult u; Planted w; GenCfg g = size_cfg(t); gen_planted(t, q, w, g);
    int n = q.n, m = q.m, p = q.p; u.rx = gen_mult(t); u.ry = p ? gen_mult(t) : 0; u.rz = gen_mult(t); u.mu = gen_mult(t); if (u.mu == 0) u.mu = 0.01;
    x = w.x; y = w.y; z = w.z; s = w.s;
    // strictly positive s and z with s'z/m = u.mu * abstol, spread over random entries
    Vec wt(m); double tot = 0; for (auto &v : wt) { v = t.chance(1, 3) ? 0.01 : t.uni(0.1, 1); tot += v; }
    int conc = t.chance(1, 3) ? (int)t.below(m) : -1; // all of it in one entry
    for (int i = 0; i < m; ++i) {
        double prod = (conc >= 0 ? (i == conc ? 0.999 : 0.001 / m) : wt[i] / tot) * u.mu * abstol * m; double big = t.uni(0.5, 2);
        if (z[i] > s[i]) { z[i] = big; s[i] = prod / big; } else { s[i] = big; z[i] = prod / big; }
    }
    auto dir = [&](int k, double norm) { Vec v(k, 0); if (!k) return v; int one = t.chance(1, 3) ? (t.chance(1, 2) ? k - 1 : (int)t.below(k)) : -1; ld nn = 0; for (int i = 0; i < k; ++i) { v[i] = one >= 0 ? (i == one) : t.uni(-1, 1); nn += (ld)v[i] * v[i]; } nn = sqrtl(nn); if (nn == 0) { v[0] = 1; nn = 1; } for (auto &a : v) a = (double)(a * norm / nn); return v; };
    Vec ex = dir(n, u.rx * reltol), ey = dir(p, u.ry * reltol), ez = dir(m, u.rz * reltol);
    for (int j = 0; j < n; ++j) { ld a = ex[j]; for (int i = 0; i < n; ++i) a -= (ld)q.Pe(j, i) * x[i]; for (int i = 0; i < m; ++i) a -= (ld)q.Ge(i, j) * z[i]; for (int i = 0; i < p; ++i) a -= (ld)q.Ae(i, j) * y[i]; q.c[j] = (double)a; }
    for (int i = 0; i < m; ++i) { ld a = (ld)s[i] + ez[i]; for (int j = 0; j < n; ++j) a += (ld)q.Ge(i, j) * x[j]; q.h[i] = (double)a; }
    for (int i = 0; i < p; ++i) { ld a = ey[i]; for (int j = 0; j < n; ++j) a += (ld)q.Ae(i, j) * x[j]; q.b[i] = (double)a; }
    c.note("placed point: residuals %g %g %g times reltol, complementarity %g times abstol", u.rx, u.ry, u.rz, u.mu);
    return u;
}
