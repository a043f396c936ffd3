// Large sparse problems (up to some 130000 rows or columns) with a planted optimum, and residuals on sparse data.
#pragma once
#include "qp.hpp"
#include "hooks.h"
// around the sizes that a narrower counter or a fixed-size buffer would not survive
inline long big_dim(Tape &t)
{
    switch (t.pick({3, 2, 2, 3, 2, 1})) { case 0: return t.range(250, 1100); case 1: return t.range(4090, 4110); case 2: return t.range(32760, 32790); case 3: return t.range(65530, 65560); case 4: return t.range(66000, 90000); default: return t.range(131060, 131090); }
}
struct BigQP { long n = 0, m = 0, p = 0; Csc P, G, A; Vec c, h, b, x, y, z, s; const char *kind = ""; double lam = 0; /* smallest eigenvalue of P is at least this */ };
struct Trip { long i, j; double v; };
inline Csc big_csc(long m, long n, std::vector<Trip> &t) // repeated entries are merged by keeping the first
{
    Csc s; s.m = m; s.n = n; std::sort(t.begin(), t.end(), [](const Trip &a, const Trip &b) { return a.j != b.j ? a.j < b.j : a.i < b.i; });
    s.jc.assign(n + 1, 0); long lj = -1, li = -1; for (auto &e : t) { if (e.j == lj && e.i == li) continue; lj = e.j; li = e.i; s.ir.push_back(e.i); s.pr.push_back(e.v); s.jc[e.j + 1]++; }
    for (long j = 0; j < n; ++j) s.jc[j + 1] += s.jc[j]; s.ir.shrink_to_fit(); s.pr.shrink_to_fit(); s.jc.shrink_to_fit(); return s;
}
template <class F> inline void each(const Csc &M, F f) { for (long j = 0; j < M.n; ++j) for (long k = M.jc[j]; k < M.jc[j + 1]; ++k) f(M.ir[k], j, M.pr[k]); }
inline double ru(pbt::Rng &r, double a, double b) { return a + (b - a) * ((double)(r.next() >> 11) / 9007199254740992.0); }
inline void gen_big(Tape &t, BigQP &q, Ctx &c, bool tall_only = false, int eqs = -1)
{
    long N = big_dim(t); int kind = tall_only ? 0 : t.pick({2, 2, 1, 1, 1}); pbt::Rng r(t.raw()); std::vector<Trip> P, G, A; auto sg = [&] { return r.below(2) ? 1.0 : -1.0; }; Vec d;
    if (kind == 0) { // few variables, many inequalities
        q.kind = "many inequalities"; q.n = t.range(1, 4); q.m = N; q.p = eqs == 0 ? 0 : q.n > 1 && t.chance(1, 3);
    } else { q.n = N; q.m = t.chance(1, 2) ? t.range(1, 12) : N + t.range(-3, 3); q.p = 0; q.kind = "many variables"; if (kind == 2) { q.kind = "one dense equality"; q.p = 1; } if (kind == 3) { q.kind = "many equalities"; q.p = N / 2; } if (kind == 4) { q.kind = "everything many"; q.m = 2 * N; q.p = N / 4; } }
    bool tri = kind && t.chance(1, 2); for (long i = 0; i < q.n; ++i) { P.push_back({i, i, tri ? 2.5 : ru(r, 0.5, 2)}); if (tri && i + 1 < q.n) { double v = ru(r, -0.9, 0.9); P.push_back({i, i + 1, v}); P.push_back({i + 1, i, v}); } } q.lam = tri ? 0.7 : 0.5;
    d.assign(q.n, 0); for (auto &v : d) v = ru(r, 0.3, 1) * sg();
    if (kind == 0 && q.p) { for (long j = 0; j < q.n; ++j) A.push_back({0, j, j < 2 ? 1.0 : 0.5}); double s = 0; for (long j = 2; j < q.n; ++j) s += 0.5 * d[j]; d[1] = -d[0] - s; }
    if (kind == 2) { for (long j = 0; j + 1 < q.n; j += 2) { double v = ru(r, 0.5, 1.5) * sg(), w = ru(r, 0.5, 1.5) * sg(); A.push_back({0, j, v}); A.push_back({0, j + 1, w}); d[j + 1] = -d[j] * v / w; } }
    if (kind >= 3) for (long i = 0; i < q.p; ++i) { double v = ru(r, 0.5, 1.5) * sg(), w = ru(r, 0.5, 1.5) * sg(); A.push_back({i, 2 * i, v}); A.push_back({i, 2 * i + 1, w}); d[2 * i + 1] = -d[2 * i] * v / w; }
    q.z.assign(q.m, 0); q.s.assign(q.m, 0); double share = kind == 0 ? 3.0 / (double)q.m : 0.2;
    for (long i = 0; i < q.m; ++i) {
        std::pair<long, double> e[4]; int k = 0; if (kind == 0) for (long j = 0; j < q.n; ++j) e[k++] = {j, ru(r, -1, 1)}; else { e[k++] = {q.m >= q.n - 3 ? i % q.n : (long)r.below(q.n), sg() * ru(r, 0.5, 1.5)}; if (r.below(3) == 0) { long j = e[0].first ^ 1; if (j < q.n) e[k++] = {j, ru(r, -0.5, 0.5)}; } }
        double gd = 0, gn = 0; for (int a = 0; a < k; ++a) gd += e[a].second * d[e[a].first], gn = std::max(gn, std::fabs(e[a].second)); bool act = ru(r, 0, 1) < share && std::fabs(gd) > 0.2 * gn;
        if (act && gd > 0) for (int a = 0; a < k; ++a) e[a].second = -e[a].second; if (act) q.z[i] = ru(r, 0.1, 3); else q.s[i] = ru(r, 0.1, 3); for (int a = 0; a < k; ++a) G.push_back({i, e[a].first, e[a].second});
    }
    q.P = big_csc(q.n, q.n, P); q.G = big_csc(q.m, q.n, G); q.A = big_csc(q.p, q.n, A); q.x.resize(q.n); for (auto &v : q.x) v = ru(r, -2, 2); q.y.resize(q.p); for (auto &v : q.y) v = ru(r, -2, 2);
    std::vector<ld> C(q.n, 0), H(q.m), B(q.p, 0); for (long i = 0; i < q.m; ++i) H[i] = q.s[i]; each(q.P, [&](long i, long j, double v) { C[i] += (ld)v * q.x[j]; }); each(q.G, [&](long i, long j, double v) { C[j] += (ld)v * q.z[i]; H[i] += (ld)v * q.x[j]; }); each(q.A, [&](long i, long j, double v) { C[j] += (ld)v * q.y[i]; B[i] += (ld)v * q.x[j]; });
    q.c.resize(q.n); q.h.resize(q.m); q.b.resize(q.p); for (long j = 0; j < q.n; ++j) q.c[j] = (double)-C[j]; for (long i = 0; i < q.m; ++i) q.h[i] = (double)H[i]; for (long i = 0; i < q.p; ++i) q.b[i] = (double)B[i]; for (Vec *v : {&q.c, &q.h, &q.b}) v->shrink_to_fit();
    c.note("%s: n=%ld m=%ld p=%ld%s", q.kind, q.n, q.m, q.p, tri ? ", tridiagonal P" : ", diagonal P"); c.label(q.kind); c.label(N < 2000 ? "to 1100" : N < 5000 ? "around 2^12" : N < 40000 ? "around 2^15" : N < 65570 ? "around 2^16" : N < 100000 ? "to 90000" : "around 2^17"); c.vec("c", q.c); c.vec("h", q.h);
}
// residual norms in long double with bounds on the rounding error of a double evaluation in any order
inline Resid big_residuals(const BigQP &q, const double *x, const double *y, const double *z, const double *s)
{
    Resid R; long n = q.n, m = q.m, p = q.p; std::vector<ld> rx(n), ax(n), rz(m), az(m), ry(p), ay(p), Px(n, 0), Pa(n, 0); std::vector<int> kx(n, 3), kz(m, 3), ky(p, 2); R.finite = true;
    for (long j = 0; j < n; ++j) { rx[j] = q.c[j]; ax[j] = fabsl(q.c[j]); R.finite &= std::isfinite(x[j]); } for (long i = 0; i < m; ++i) { rz[i] = (ld)q.h[i] - s[i]; az[i] = fabsl(q.h[i]) + fabsl(s[i]); R.finite &= std::isfinite(s[i]) && std::isfinite(z[i]); } for (long i = 0; i < p; ++i) { ry[i] = q.b[i]; ay[i] = fabsl(q.b[i]); R.finite &= std::isfinite(y[i]); }
    each(q.P, [&](long i, long j, double v) { ld u = (ld)v * x[j]; Px[i] += u; Pa[i] += fabsl(u); kx[i]++; }); for (long j = 0; j < n; ++j) rx[j] += Px[j], ax[j] += Pa[j];
    each(q.G, [&](long i, long j, double v) { ld u = (ld)v * z[i]; rx[j] += u; ax[j] += fabsl(u); kx[j]++; u = (ld)v * x[j]; rz[i] -= u; az[i] += fabsl(u); kz[i]++; }); each(q.A, [&](long i, long j, double v) { ld u = (ld)v * y[i]; rx[j] += u; ax[j] += fabsl(u); kx[j]++; u = (ld)v * x[j]; ry[i] -= u; ay[i] += fabsl(u); ky[i]++; });
    auto nrm = [&](const std::vector<ld> &r, const std::vector<ld> &a, const std::vector<int> &k, ld &e) { ld S = 0, E = 0; for (size_t i = 0; i < r.size(); ++i) { S += r[i] * r[i]; ld b = EPS * (k[i] + 4) * a[i]; E += b * b; } S = sqrtl(S); e = 1.01L * sqrtl(E) + EPS * (r.size() + 8) * (S + sqrtl(E)); return S; };
    R.rx = nrm(rx, ax, kx, R.ex); R.ry = nrm(ry, ay, ky, R.ey); R.rz = nrm(rz, az, kz, R.ez); R.smin = R.zmin = INFINITY; ld S = 0, E = 0; for (long i = 0; i < m; ++i) { ld u = (ld)s[i] * z[i]; S += u; E += fabsl(u); R.smin = std::min<ld>(R.smin, s[i]); R.zmin = std::min<ld>(R.zmin, z[i]); } R.mu = S / m; R.emu = EPS * (m + 6) * E / m;
    R.f = 0; ld F = 0; for (long j = 0; j < n; ++j) { R.f += (ld)x[j] * (0.5L * Px[j] + q.c[j]); F += fabsl(x[j]) * (0.5L * Pa[j] + fabsl(q.c[j])); } R.ef = EPS * (n + 16) * F; return R;
}
struct BigInst { BigQP *q; QP *w = nullptr; double sigma_d = 0;
    explicit BigInst(BigQP &Q, std::vector<qp_int> *pm = nullptr) : q(&Q) { w = QP_SETUP(Q.n, Q.m, Q.p, Q.P.jc.data(), Q.P.I(), Q.P.X(), Q.p ? Q.A.jc.data() : 0, Q.p ? Q.A.I() : 0, Q.p ? Q.A.X() : 0, Q.G.jc.data(), Q.G.I(), Q.G.X(), Q.c.data(), Q.h.data(), Q.p ? Q.b.data() : 0, 0.0, pm ? pm->data() : 0); }
    BigInst(const BigInst &) = delete; BigInst &operator=(const BigInst &) = delete; ~BigInst() { if (w) QP_CLEANUP(w); }
    Sol solve() { Sol r; r.flag = QP_SOLVE(w); return take(r); }
    Sol take(Sol r) { r.it = w->stats->IterationCount; r.x.assign(w->x, w->x + q->n); r.z.assign(w->z, w->z + q->m); r.s.assign(w->s, w->s + q->m); if (w->p) r.y.assign(w->y, w->y + q->p); r.fval = w->stats->fval; r.nrx = w->stats->n_rx; r.nrz = w->stats->n_rz; r.nry = w->p ? w->stats->n_ry : 0; r.nmu = w->stats->n_mu; return r; }
};
