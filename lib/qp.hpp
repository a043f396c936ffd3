// QP model shared by the checks: dense problem data, generators, CCS conversion, library
// handles and extended-precision residuals.
#pragma once
#include "pbt.hpp"
#include "qpSWIFT.h"
#undef MAX
#undef MIN
typedef long double ld;
typedef std::vector<double> Vec;
static const double EPS = 2.220446049250313e-16;

struct QPD { // dense data, column-major
    int n = 0, m = 0, p = 0;
    Vec P, G, A, c, h, b;
    double &Pe(int i, int j) { return P[(size_t)j * n + i]; }
    double &Ge(int i, int j) { return G[(size_t)j * m + i]; }
    double &Ae(int i, int j) { return A[(size_t)j * p + i]; }
    double Pe(int i, int j) const { return P[(size_t)j * n + i]; }
    double Ge(int i, int j) const { return G[(size_t)j * m + i]; }
    double Ae(int i, int j) const { return A[(size_t)j * p + i]; }
    void alloc(int n_, int m_, int p_) { n = n_; m = m_; p = p_; P.assign((size_t)n * n, 0); G.assign((size_t)m * n, 0); A.assign((size_t)p * n, 0); c.assign(n, 0); h.assign(m, 0); b.assign(p, 0); }
};
struct Planted { Vec x, y, z, s, d; bool pd = false; };

inline void describe(Ctx &c, const QPD &q)
{
    if (!c.want_desc) return;
    c.note("n=%d m=%d p=%d (matrices column-major)", q.n, q.m, q.p);
    c.vec("P", q.P); c.vec("c", q.c); c.vec("G", q.G); c.vec("h", q.h); if (q.p) { c.vec("A", q.A); c.vec("b", q.b); }
}

// ---------------------------------------------------------------- sparse conversion
struct Csc { std::vector<qp_int> jc, ir; Vec pr; qp_int m = 0, n = 0;
    qp_int *I() { if (ir.empty()) ir.reserve(1); return ir.data(); }
    double *X() { if (pr.empty()) pr.reserve(1); return pr.data(); } };
enum { ST_PLAIN = 0, ST_ZEROS = 1, ST_UNSORTED = 2, ST_DUP = 4 };
inline Csc to_csc(int m, int n, const Vec &M, int style = 0, Tape *t = nullptr)
{
    Csc s; s.m = m; s.n = n; s.jc.push_back(0);
    for (int j = 0; j < n; ++j) {
        std::vector<std::pair<qp_int, double>> col;
        for (int i = 0; i < m; ++i) {
            double v = M[(size_t)j * m + i];
            if (v != 0) {
                if ((style & ST_DUP) && t->chance(1, 4)) { col.push_back({i, v * 0.5}); col.push_back({i, v * 0.5}); }
                else col.push_back({i, v});
            }
            else if ((style & ST_ZEROS) && t->chance(1, 4)) col.push_back({i, 0.0});
        }
        if (style & ST_UNSORTED) for (size_t k = col.size(); k > 1; --k) std::swap(col[k - 1], col[k - 1 - t->below(k)]);
        for (auto &e : col) { s.ir.push_back(e.first); s.pr.push_back(e.second); }
        s.jc.push_back((qp_int)s.ir.size());
    }
    s.ir.shrink_to_fit(); s.pr.shrink_to_fit();
    return s;
}
inline Vec row_major(int m, int n, const Vec &M) { Vec r((size_t)m * n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) r[(size_t)i * n + j] = M[(size_t)j * m + i]; return r; }

// ---------------------------------------------------------------- library handle
enum { IF_SPARSE = 0, IF_ROW = 1, IF_COL = 2 };
struct Sol { long flag = -1, it = 0; Vec x, y, z, s; double fval = 0, nrx = 0, nry = 0, nrz = 0, nmu = 0; };
inline bool same_bits(const Vec &a, const Vec &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static bool g_safe_order = false; // eliminate the inequality rows, then the variables, then the equality rows: no pivot is structurally zero
struct Inst {
    int iface = IF_SPARSE; QPD d; Csc P, G, A; Vec Pd, Gd, Ad, c, h, b; std::vector<qp_int> perm; QP *q = nullptr; double sigma_d = 0;
    Inst() {}
    Inst(const Inst &) = delete; Inst &operator=(const Inst &) = delete;
    ~Inst() { cleanup(); }
    void prepare(const QPD &D, int ifc, const std::vector<qp_int> *pm = nullptr, int style = 0, Tape *t = nullptr)
    {
        d = D; iface = ifc; c = D.c; h = D.h; b = D.b; if (pm) perm = *pm; else perm.clear();
        if (perm.empty() && g_safe_order) { for (int i = 0; i < D.m; ++i) perm.push_back(D.n + D.p + i); for (int i = 0; i < D.n + D.p; ++i) perm.push_back(i); }
        if (iface == IF_SPARSE) { P = to_csc(D.n, D.n, D.P, style, t); G = to_csc(D.m, D.n, D.G, style, t); if (D.p) A = to_csc(D.p, D.n, D.A, style, t); }
        else if (iface == IF_ROW) { Pd = row_major(D.n, D.n, D.P); Gd = row_major(D.m, D.n, D.G); if (D.p) Ad = row_major(D.p, D.n, D.A); }
        else { Pd = D.P; Gd = D.G; Ad = D.A; }
    }
    void setup()
    {
        qp_int *pm = perm.empty() ? nullptr : perm.data();
        if (iface == IF_SPARSE)
            q = QP_SETUP(d.n, d.m, d.p, P.jc.data(), P.I(), P.X(), d.p ? A.jc.data() : 0, d.p ? A.I() : 0, d.p ? A.X() : 0, G.jc.data(), G.I(), G.X(), c.data(), h.data(), d.p ? b.data() : 0, sigma_d, pm);
        else
            q = QP_SETUP_dense(d.n, d.m, d.p, Pd.data(), d.p ? Ad.data() : 0, Gd.data(), c.data(), h.data(), d.p ? b.data() : 0, pm, iface == IF_ROW ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
    }
    void open(const QPD &D, int ifc = IF_SPARSE, const std::vector<qp_int> *pm = nullptr, int style = 0, Tape *t = nullptr) { prepare(D, ifc, pm, style, t); setup(); }
    Sol snap(long flag) const
    {
        Sol r; r.flag = flag; r.it = q->stats->IterationCount;
        r.x.assign(q->x, q->x + d.n); r.z.assign(q->z, q->z + d.m); r.s.assign(q->s, q->s + d.m); if (q->p) r.y.assign(q->y, q->y + q->p);
        r.fval = q->stats->fval; r.nrx = q->stats->n_rx; r.nrz = q->stats->n_rz; r.nry = q->p ? q->stats->n_ry : 0; r.nmu = q->stats->n_mu;
        return r;
    }
    void put(const Vec &x, const Vec &y, const Vec &z, const Vec &s_) { std::copy(x.begin(), x.end(), q->x); std::copy(z.begin(), z.end(), q->z); std::copy(s_.begin(), s_.end(), q->s); if (q->p) std::copy(y.begin(), y.end(), q->y); }
    Sol solve() { long f = QP_SOLVE(q); return snap(f); }
    void cleanup() { if (q) { if (iface == IF_SPARSE) QP_CLEANUP(q); else QP_CLEANUP_dense(q); q = nullptr; } }
};

// ---------------------------------------------------------------- extended-precision residuals
struct Resid { ld rx, ry, rz, mu, f; ld ex, ey, ez, emu, ef; ld smin, zmin; bool finite; };
// norms of the KKT residuals, with rigorous bounds e* on the rounding error of any
// double-precision evaluation of the same quantity (any summation order)
inline Resid residuals(const QPD &q, const Vec &x, const Vec &y, const Vec &z, const Vec &s)
{
    Resid r; int n = q.n, m = q.m, p = q.p; ld a, e, S = 0, E = 0; r.finite = true;
    for (double v : x) r.finite &= std::isfinite(v); for (double v : y) r.finite &= std::isfinite(v); for (double v : z) r.finite &= std::isfinite(v); for (double v : s) r.finite &= std::isfinite(v);
    ld u = EPS * (2 * (n + m + p) + 20);
    std::vector<ld> Px(n, 0), Pxa(n, 0), Gx(m, 0), Gxa(m, 0), Ax(p, 0), Axa(p, 0);
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (q.Pe(i, j) != 0) { ld t = (ld)q.Pe(i, j) * x[j]; Px[i] += t; Pxa[i] += fabsl(t); }
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) if (q.Ge(i, j) != 0) { ld t = (ld)q.Ge(i, j) * x[j]; Gx[i] += t; Gxa[i] += fabsl(t); }
    for (int j = 0; j < n; ++j) for (int i = 0; i < p; ++i) if (q.Ae(i, j) != 0) { ld t = (ld)q.Ae(i, j) * x[j]; Ax[i] += t; Axa[i] += fabsl(t); }
    r.f = 0; r.ef = 0;
    for (int j = 0; j < n; ++j) {
        a = Px[j] + q.c[j]; e = Pxa[j] + fabsl(q.c[j]);
        r.f += 0.5L * x[j] * Px[j] + (ld)q.c[j] * x[j]; r.ef += 0.5L * fabsl(x[j]) * Pxa[j] + fabsl((ld)q.c[j] * x[j]);
        for (int i = 0; i < m; ++i) if (q.Ge(i, j) != 0) { ld t = (ld)q.Ge(i, j) * z[i]; a += t; e += fabsl(t); }
        for (int i = 0; i < p; ++i) if (q.Ae(i, j) != 0) { ld t = (ld)q.Ae(i, j) * y[i]; a += t; e += fabsl(t); }
        S += a * a; E += e * e;
    }
    r.ef *= u; r.rx = sqrtl(S); r.ex = u * sqrtl(E) + u * r.rx; S = E = 0;
    for (int i = 0; i < p; ++i) { a = q.b[i] - Ax[i]; e = fabsl(q.b[i]) + Axa[i]; S += a * a; E += e * e; }
    r.ry = sqrtl(S); r.ey = u * sqrtl(E) + u * r.ry; S = E = 0;
    for (int i = 0; i < m; ++i) { a = q.h[i] - Gx[i] - s[i]; e = fabsl(q.h[i]) + Gxa[i] + fabsl(s[i]); S += a * a; E += e * e; }
    r.rz = sqrtl(S); r.ez = u * sqrtl(E) + u * r.rz; S = E = 0;
    r.smin = r.zmin = INFINITY;
    for (int i = 0; i < m; ++i) { S += (ld)s[i] * z[i]; E += fabsl((ld)s[i] * z[i]); r.smin = std::min<ld>(r.smin, s[i]); r.zmin = std::min<ld>(r.zmin, z[i]); }
    r.mu = S / m; r.emu = u * E / m;
    return r;
}

// ---------------------------------------------------------------- generators
// Positive semidefinite P of several shapes. Returns true if it is positive definite by construction.
inline bool gen_P(Tape &t, QPD &q, int kind)
{
    int n = q.n;
    switch (kind) {
    case 0: for (int i = 0; i < n; ++i) q.Pe(i, i) = std::fabs(t.val()); return true;             // diagonal
    case 1: {                                                                                      // sparse M'M + d I
        int rows = n; for (int k = 0; k < rows; ++k) { int nz = (int)t.range(1, std::min(n, 3)); std::vector<std::pair<int, double>> r; for (int a = 0; a < nz; ++a) r.push_back({(int)t.below(n), t.val() * 0.5}); for (auto &u : r) for (auto &w : r) q.Pe(u.first, w.first) += u.second * w.second; }
        double dl = t.uni(0.1, 1); for (int i = 0; i < n; ++i) q.Pe(i, i) += dl;
        break; }
    case 2: {                                                                                      // dense M'M/n + d I
        Vec M((size_t)n * n); for (auto &v : M) v = t.uni(-1, 1); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double a = 0; for (int k = 0; k < n; ++k) a += M[(size_t)k * n + i] * M[(size_t)k * n + j]; q.Pe(i, j) = q.Pe(j, i) = a * 2 / n; }
        double dl = t.uni(0.1, 1); for (int i = 0; i < n; ++i) q.Pe(i, i) += dl;
        break; }
    case 3: for (int i = 0; i < n; ++i) { q.Pe(i, i) = 2.5; if (i + 1 < n) q.Pe(i, i + 1) = q.Pe(i + 1, i) = -1; } return true; // banded
    case 4: {                                                                                      // low rank
        int r = (int)t.range(1, std::max(1, n / 2)); for (int k = 0; k < r; ++k) { Vec v(n, 0); for (auto &x : v) if (t.chance(1, 2)) x = t.uni(-1, 1); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q.Pe(i, j) += v[i] * v[j]; }
        break; }
    case 5: for (int i = 0; i < n; ++i) if (t.chance(1, 2)) q.Pe(i, i) = std::fabs(t.val()); return false; // singular diagonal
    default: return false;                                                                         // zero: LP
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) q.Pe(i, j) = q.Pe(j, i);                // exactly symmetric
    return kind != 4;
}

struct GenCfg { int nmax = 12, mmax = 20; bool allow_eq = true, allow_psd = true, allow_lp = true; bool zero_rows = true; int force_p = -1; };

// mostly small problems, some medium, few large
inline GenCfg size_cfg(Tape &t, int scale = 1) { GenCfg g; switch (t.pick({400, 85, 14, 3})) { case 0: g.nmax = 12; g.mmax = 20; break; case 1: g.nmax = 36 * scale; g.mmax = 70 * scale; break; case 2: g.nmax = 90 * scale; g.mmax = 150 * scale; break; default: g.nmax = 220 * scale; g.mmax = 320 * scale; } return g; }

inline void plant_rhs(QPD &q, const Planted &w); // c, h, b from the planted point
// A convex QP with a known optimal primal-dual point, full-row-rank equality constraints and a
// strictly feasible point (x + eps d), with O(1) data.
inline void gen_planted(Tape &t, QPD &q, Planted &w, const GenCfg &g)
{
    int n = (int)t.dim(1, g.nmax), m = (int)t.dim(1, g.mmax), p = 0;
    int kind = t.pick({20, 20, 15, 10, g.allow_psd ? 12u : 0u, g.allow_psd ? 12u : 0u, g.allow_lp ? 8u : 0u});
    if (kind > 3) { n = std::min(n, 36); m = std::min(m, 70); }
    if (g.allow_eq && n > 1 && t.chance(1, 2)) p = t.chance(1, 8) ? (int)t.range(1, std::min(n, 80)) : (int)t.dim(1, std::max(1, std::min(n / 3, 12)));
    if (g.force_p >= 0) p = std::min(g.force_p, n);
    q.alloc(n, m, p);
    w.pd = gen_P(t, q, kind);
    int nbox = w.pd ? 0 : 2 * n; // with singular P every variable is boxed, so that the set of optima is bounded
    if (nbox) { m += nbox; q.m = m; q.G.assign((size_t)m * n, 0); q.h.assign(m, 0); }
    int gk = t.pick({3, 2, 1}); // sparsity of the constraint rows
    if (n > 100 || m > 160) gk = 0; // (large and dense: the default accuracy is beyond double precision)
    auto rownz = [&](int width) { return gk == 0 ? (int)t.range(1, std::min(width, 3)) : gk == 1 ? (int)t.range(1, width) : width; };
    // equality rows: distinct pivots, diagonally dominant on the pivot columns
    std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i; for (int i = 0; i < p; ++i) std::swap(perm[i], perm[i + t.below(n - i)]);
    std::vector<char> isp(n, 0); for (int i = 0; i < p; ++i) isp[perm[i]] = 1;
    for (int i = 0; i < p; ++i) {
        int nz = rownz(n); for (int k = 0; k < nz; ++k) { int j = (int)t.below(n); q.Ae(i, j) = t.val() * (isp[j] ? 0.25 : 1.0); }
        double s = 1; for (int j = 0; j < n; ++j) if (isp[j] && j != perm[i]) s += std::fabs(q.Ae(i, j)); q.Ae(i, perm[i]) = s * t.sgn();
    }
    // d in null(A)
    w.d.assign(n, 0); for (int j = 0; j < n; ++j) if (!isp[j]) { double v = t.uni(0.3, 1.0); w.d[j] = v * t.sgn(); }
    if (p) {
        std::vector<Vec> M(p, Vec(p + 1)); for (int i = 0; i < p; ++i) { for (int k = 0; k < p; ++k) M[i][k] = q.Ae(i, perm[k]); double r = 0; for (int j = 0; j < n; ++j) if (!isp[j]) r -= q.Ae(i, j) * w.d[j]; M[i][p] = r; }
        for (int k = 0; k < p; ++k) { int b = k; for (int i = k; i < p; ++i) if (std::fabs(M[i][k]) > std::fabs(M[b][k])) b = i; std::swap(M[b], M[k]); for (int i = k + 1; i < p; ++i) { double f = M[i][k] / M[k][k]; if (f != 0) for (int j = k; j <= p; ++j) M[i][j] -= f * M[k][j]; } }
        for (int k = p - 1; k >= 0; --k) { double r = M[k][p]; for (int j = k + 1; j < p; ++j) r -= M[k][j] * w.d[perm[j]]; w.d[perm[k]] = r / M[k][k]; }
    }
    w.x.assign(n, 0); for (auto &v : w.x) v = t.uni(-2, 2); w.y.assign(p, 0); for (auto &v : w.y) v = t.uni(-2, 2);
    w.z.assign(m, 0); w.s.assign(m, 0);
    int mk = t.pick({3, 2}); // 0: general rows, 1: mostly bounds
    for (int i = 0; i < m; ++i) {
        int bx = i - (m - nbox); bool zero = bx < 0 && g.zero_rows && t.chance(1, 30);
        if (bx >= 0) q.Ge(i, bx / 2) = bx % 2 ? -1.0 : 1.0;
        else if (!zero) { int nz = (mk == 1 && !t.chance(1, 5)) ? 1 : rownz(n); for (int k = 0; k < nz; ++k) q.Ge(i, (int)t.below(n)) = t.val(); }
        bool act = bx < 0 && t.chance(1, 3); double gd = 0, gn = 0; for (int j = 0; j < n; ++j) { gd += q.Ge(i, j) * w.d[j]; gn = std::max(gn, std::fabs(q.Ge(i, j))); }
        if (act && std::fabs(gd) > 0.2 * (gn + 1e-9)) {
            if (gd > 0) for (int j = 0; j < n; ++j) if (q.Ge(i, j) != 0) q.Ge(i, j) = -q.Ge(i, j);
            w.z[i] = t.chance(1, 8) ? 0.0 : t.uni(0.1, 3);
        }
        else w.s[i] = bx >= 0 ? t.uni(1, 8) : t.uni(0.1, 3);
    }
    plant_rhs(q, w);
}
inline void plant_rhs(QPD &q, const Planted &w)
{
    int n = q.n, m = q.m, p = q.p;
    for (int j = 0; j < n; ++j) { ld a = 0; for (int i = 0; i < n; ++i) a += (ld)q.Pe(j, i) * w.x[i]; for (int i = 0; i < m; ++i) a += (ld)q.Ge(i, j) * w.z[i]; for (int i = 0; i < p; ++i) a += (ld)q.Ae(i, j) * w.y[i]; q.c[j] = (double)-a; }
    for (int i = 0; i < m; ++i) { ld a = w.s[i]; for (int j = 0; j < n; ++j) a += (ld)q.Ge(i, j) * w.x[j]; q.h[i] = (double)a; }
    for (int i = 0; i < p; ++i) { ld a = 0; for (int j = 0; j < n; ++j) a += (ld)q.Ae(i, j) * w.x[j]; q.b[i] = (double)a; }
}

// Arbitrary data: possibly nonconvex, infeasible, unbounded, rank deficient, badly scaled.
inline double wild(Tape &t)
{
    switch (t.pick({50, 10, 10, 6, 6, 3})) {
    case 0: return t.val();
    case 1: return 0.0;
    case 2: { double s = t.sgn(); return s * std::ldexp(1.0 + t.unit(), (int)t.range(-30, 30)); }
    case 3: { double s = t.sgn(); return s * std::pow(10.0, (double)t.range(-12, 12)); }
    case 4: return (double)t.range(-1000, 1000);
    default: { double s = t.sgn(); return s * 1e-300; }
    }
}
inline void gen_wild(Tape &t, QPD &q, int nmax, int mmax, bool special = false)
{
    int n = (int)t.dim(1, nmax), m = (int)t.dim(1, mmax), p = t.chance(1, 2) ? (int)t.dim(1, std::max(1, nmax / 2)) : 0; q.alloc(n, m, p);
    int scale = t.pick({4, 1}); auto V = [&]() { return scale ? wild(t) : t.val(); };
    if (t.chance(3, 4)) gen_P(t, q, t.pick({3, 3, 1, 2, 2, 2, 2}));
    else for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) if (t.chance(1, 3)) q.Pe(i, j) = q.Pe(j, i) = V();
    if (t.chance(1, 6)) { if (t.chance(1, 2)) { for (int j = 0; j < n; ++j) for (int i = j + 1; i < n; ++i) q.Pe(i, j) = 0; } else { int k = (int)t.range(1, 3); for (int a = 0; a < k; ++a) { int i = (int)t.below(n), j = (int)t.below(n); q.Pe(i, j) += t.val(); } } } // one triangle only, or not symmetric
    auto rows = [&](Vec &M, int r) { for (int i = 0; i < r; ++i) { if (t.chance(1, 12)) continue; if (i && t.chance(1, 8)) { int k = (int)t.below(i); double f = t.chance(1, 2) ? 1.0 : t.val(); for (int j = 0; j < n; ++j) M[(size_t)j * r + i] = f * M[(size_t)j * r + k]; continue; } int nz = t.chance(1, 4) ? n : (int)t.range(1, std::min(n, 3)); for (int k = 0; k < nz; ++k) M[(size_t)t.below(n) * r + i] = V(); } };
    rows(q.G, m); rows(q.A, p);
    for (auto &v : q.c) v = t.chance(1, 5) ? 0 : V(); for (auto &v : q.h) v = t.chance(1, 5) ? 0 : V(); for (auto &v : q.b) v = t.chance(1, 3) ? 0 : V();
    if (special && t.chance(1, 2)) {
        static const double sp[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308, 5e-324, -0.0, 1e200, -5e-324, -1e-40, 1e-310};
        int k = (int)t.range(1, 3); for (int a = 0; a < k; ++a) { Vec *L[] = {&q.P, &q.G, &q.A, &q.c, &q.h, &q.b}; Vec &v = *L[t.below(6)]; if (v.empty()) continue; size_t i = t.below(v.size()); double x = sp[t.below(11)]; v[i] = x; if (&v == &q.P) q.P[(i % n) * n + i / n] = x; }
    }
}

inline std::vector<qp_int> gen_perm(Tape &t, int k)
{
    std::vector<qp_int> p(k); for (int i = 0; i < k; ++i) p[i] = i;
    switch (t.pick({1, 1, 4})) { case 0: break; case 1: std::reverse(p.begin(), p.end()); break; default: for (int i = k; i > 1; --i) std::swap(p[i - 1], p[i - 1 - t.below(i)]); }
    return p;
}
inline double nrm2(const Vec &v) { ld s = 0; for (double x : v) s += (ld)x * x; return (double)sqrtl(s); }

// ---------------------------------------------------------------- problems without a solution
// Returns the class name; margin > 0 with the property that any point claimed optimal has a
// residual norm of at least margin in exact arithmetic.
inline const char *gen_unsolvable(Tape &t, QPD &q, ld &margin, int nmax, int mmax)
{
    Planted w; GenCfg g; g.nmax = nmax; g.mmax = mmax; int kind = t.pick({3, 2, 2, 3, 2}); if (kind == 1 || kind == 2) g.allow_eq = true;
    gen_planted(t, q, w, g); int n = q.n, m = q.m;
    double gap = t.uni(0.05, 2.0);
    auto addrow = [&](Vec &M, int r) { Vec N((size_t)(r + 1) * n, 0); for (int j = 0; j < n; ++j) for (int i = 0; i < r; ++i) N[(size_t)j * (r + 1) + i] = M[(size_t)j * r + i]; M = N; };
    if (kind == 0) { // Farkas: new row = -sum y_i G_i, h_new = -sum y_i h_i - gap
        Vec y(m, 0); int k = (int)t.range(1, std::min(m, 4)); for (int a = 0; a < k; ++a) y[t.below(m)] = t.uni(0.2, 1.5);
        addrow(q.G, m); q.m = m + 1; ld hn = 0; ld err = 0, yn = 1; for (int i = 0; i < m; ++i) { hn -= (ld)y[i] * q.h[i]; yn += (ld)y[i] * y[i]; }
        for (int j = 0; j < n; ++j) { ld a = 0; for (int i = 0; i < m; ++i) a -= (ld)y[i] * q.Ge(i, j); q.Ge(m, j) = (double)a; err += fabsl(a - (ld)q.Ge(m, j)); }
        q.h.push_back((double)(hn - gap)); margin = gap / sqrtl(yn) * 0.99L; return "infeasible inequalities";
    }
    if (kind == 1 || kind == 2) { // a row a with a'x = beta together with a'x = beta + gap, or a'x <= beta - gap
        if (!q.p) { q.p = 1; q.A.assign(n, 0); for (int j = 0; j < n; ++j) if (t.chance(1, 2) || j == 0) q.A[j] = t.val(); ld b = 0; for (int j = 0; j < n; ++j) b += (ld)q.A[j] * w.x[j]; q.b.assign(1, (double)b); }
        int p = q.p, i0 = (int)t.below(p); double f = t.chance(1, 2) ? 1.0 : t.sgn() * std::ldexp(1.0, (int)t.range(0, 2));
        if (kind == 1) { addrow(q.A, p); q.p = p + 1; for (int j = 0; j < n; ++j) q.Ae(p, j) = f * q.Ae(i0, j); q.b.push_back(f * q.b[i0] + gap); margin = gap / sqrtl(1 + (ld)f * f) * 0.99L; return "inconsistent equalities"; }
        addrow(q.G, m); q.m = m + 1; for (int j = 0; j < n; ++j) q.Ge(m, j) = f * q.Ae(i0, j); q.h.push_back(f * q.b[i0] - gap); margin = gap / sqrtl(1 + (ld)f * f) * 0.99L; return "equality against inequality";
    }
    if (kind == 3) { // direction d with Pd = 0, Gd <= 0, Ad = 0, c'd = -gap
        std::vector<int> sup; for (int j = 0; j < n; ++j) if (t.chance(1, 3)) sup.push_back(j); if (sup.empty()) sup.push_back((int)t.below(n));
        std::vector<char> in(n, 0); for (int j : sup) in[j] = 1; // d = 1 on sup
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (in[i] || in[j]) q.Pe(i, j) = 0;
        for (int i = 0; i < q.p; ++i) { int prev = -1; for (int j : sup) { if (prev < 0) { prev = j; continue; } } if (sup.size() == 1) q.Ae(i, sup[0]) = 0; else { double v = q.Ae(i, sup[0]); for (size_t a = 1; a < sup.size(); ++a) q.Ae(i, sup[a]) = 0; q.Ae(i, sup[1]) = -v; } }
        for (int i = 0; i < m; ++i) for (int j : sup) q.Ge(i, j) = -std::fabs(q.Ge(i, j));
        ld cd = 0; for (int j : sup) cd += q.c[j]; q.c[sup[0]] += (double)(-gap - cd); cd = 0; for (int j : sup) cd += q.c[j]; margin = -cd / sqrtl((ld)sup.size()) * 0.99L; return "unbounded";
    }
    static const double sp[] = {NAN, INFINITY, -INFINITY};
    int k = (int)t.range(1, 2); for (int a = 0; a < k; ++a) {
        double v = sp[t.below(3)]; int where = t.pick({2, 2, 2, 2, 1, 1});
        if (where == 0) q.h[t.below(m)] = v; else if (where == 1) q.c[t.below(n)] = v; else if (where == 2) q.Ge((int)t.below(m), (int)t.below(n)) = v;
        else if (where == 3) { int i = (int)t.below(n), j = (int)t.below(n); q.Pe(i, j) = q.Pe(j, i) = v; } else if (q.p && where == 4) q.b[t.below(q.p)] = v; else if (q.p) q.Ae((int)t.below(q.p), (int)t.below(n)) = v; else q.h[0] = v;
    }
    margin = INFINITY; return "non-finite data";
}

// ---------------------------------------------------------------- oracle for planted problems
// Rigorous bounds on f(x)-f* and on (x-x*)'P(x-x*) given the residuals at (x,y,z,s).
struct Gap { ld lo, hi, quad, df; };
inline Gap gap_bounds(const QPD &q, const Planted &w, const Sol &s, const Resid &r)
{
    auto N = [](const Vec &v) { ld a = 0; for (double x : v) a += (ld)x * x; return sqrtl(a); };
    Vec dx(q.n); ld nd = 0; for (int j = 0; j < q.n; ++j) { dx[j] = s.x[j] - w.x[j]; nd += (ld)dx[j] * dx[j]; } nd = sqrtl(nd);
    Gap g; ld sz = 0; for (int i = 0; i < q.m; ++i) sz += fabsl((ld)s.s[i] * s.z[i]);
    Vec xs = w.x; Resid rs = residuals(q, w.x, w.y, w.z, w.s); // residuals of the planted point: rounding of its construction
    g.hi = (r.rx + r.ex) * nd + sz + N(s.z) * (r.rz + r.ez + rs.rz + rs.ez) + N(s.y) * (r.ry + r.ey + rs.ry + rs.ey);
    g.lo = (rs.rx + rs.ex) * nd + N(w.z) * (r.rz + r.ez + rs.rz + rs.ez) + N(w.y) * (r.ry + r.ey + rs.ry + rs.ey);
    g.df = 0; g.quad = 0;
    for (int i = 0; i < q.n; ++i) { ld a = 0, b = 0; for (int j = 0; j < q.n; ++j) { a += (ld)q.Pe(i, j) * dx[j]; b += (ld)q.Pe(i, j) * (s.x[j] + w.x[j]); } g.quad += a * dx[i]; g.df += 0.5L * b * dx[i] + (ld)q.c[i] * dx[i]; }
    return g;
}
#include "refipm.hpp"
// Full well-posed-problem oracle: throws on violation.
struct Unsolved { QPD q; double rel, abs; long lim; }; inline Unsolved g_unsolved; // the last problem found not solved (in time)
inline void check_solved(Ctx &c, const QPD &q, const Planted &w, const Sol &s, double reltol, double abstol, const char *who, long maxiter = 50)
{
    if (s.flag != 0 || s.it >= maxiter) g_unsolved = {q, reltol, abstol, maxiter};
    if (s.flag != 0) fail("not-solved", fmt("%s: exit code %ld after %ld iterations on a well-posed problem", who, s.flag, s.it));
    if (s.it >= maxiter) fail("slow", fmt("%s: needed %ld iterations", who, s.it));
    Resid r = residuals(q, s.x, s.y, s.z, s.s);
    if (!r.finite) fail("not-finite", fmt("%s: non-finite entry in the returned point", who));
    if (r.rx > reltol + r.ex || r.ry > reltol + r.ey || r.rz > reltol + r.ez || r.mu > abstol + r.emu || r.smin < 0 || r.zmin < 0)
        fail("not-optimal", fmt("%s: residuals at the reported optimum rx=%Lg ry=%Lg rz=%Lg mu=%Lg min s=%Lg min z=%Lg", who, r.rx, r.ry, r.rz, r.mu, r.smin, r.zmin));
    Gap g = gap_bounds(q, w, s, r); ld fs = 1 + fabsl(r.f), nd = 0; for (int j = 0; j < q.n; ++j) nd = std::max<ld>(nd, fabsl((ld)s.x[j] - w.x[j]));
    ld slack = 1e-12L * fs; { ld a = 0; for (double v : q.P) a += fabsl(v); slack += 1e-13L * a * nd * nd; } // P is semidefinite only up to rounding
    if (g.df > g.hi + slack || g.df < -g.lo - slack) fail("wrong-objective", fmt("%s: objective differs from the optimum by %Lg (allowed %Lg above, %Lg below)", who, g.df, g.hi, g.lo));
    if (g.quad > g.hi + g.lo + 2 * slack) fail("wrong-x", fmt("%s: (x-x*)'P(x-x*) = %Lg exceeds %Lg", who, g.quad, g.hi + g.lo));
    // absolute sanity, independent of the multipliers' size
    ld zs = 0; for (double v : s.z) zs = std::max<ld>(zs, fabsl(v)); for (double v : w.z) zs = std::max<ld>(zs, fabsl(v)); for (double v : s.y) zs = std::max<ld>(zs, fabsl(v));
    c.metric("objective error / (1+|f|)", (double)(fabsl(g.df) / fs)); c.metric("max iterations", s.it);
}

// The factorisation has no pivoting: with zero blocks in the KKT matrix (equality rows, singular P)
// cancellation can spoil a pivot for isolated data values (see DESIGN.md and known_findings.txt).
// Separate primal and dual steps can also make the iteration cycle on isolated data.
// A failure is therefore decided on siblings: first the same sparsity and active set with constraint values
// perturbed by up to 5 percent, P rescaled and new multipliers and slacks; if these fail as well, more distant
// ones under a random renumbering of variables and rows (which leads to another elimination order).
// A failure that disappears is counted, not reported - unless such accidents come more often than rounding explains.
inline void renumber(QPD &q, Planted &w, Tape &t)
{
    auto perm = [&](int k) { std::vector<int> v(k); for (int i = 0; i < k; ++i) v[i] = i; for (int i = k; i > 1; --i) std::swap(v[i - 1], v[t.below(i)]); return v; };
    int n = q.n, m = q.m, p = q.p; auto a = perm(n), g = perm(m), e = perm(p); QPD r = q; Planted u = w;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) r.Pe(a[i], a[j]) = q.Pe(i, j); for (int k = 0; k < m; ++k) r.Ge(g[k], a[i]) = q.Ge(k, i); for (int k = 0; k < p; ++k) r.Ae(e[k], a[i]) = q.Ae(k, i); u.x[a[i]] = w.x[i]; if (!w.d.empty()) u.d[a[i]] = w.d[i]; }
    for (int k = 0; k < m; ++k) { u.s[g[k]] = w.s[k]; u.z[g[k]] = w.z[k]; } for (int k = 0; k < p; ++k) u.y[e[k]] = w.y[k];
    q = r; w = u;
}
template <class F> inline void with_siblings(Tape &t, Ctx &c, const QPD &q, const Planted &w, F run)
{
    static uint64_t cases = 0, accidents = 0; ++cases; // of this process
    try { run(q, w); return; }
    catch (pbt::Fail &f) {
        static const char *numeric[] = {"not-solved", "slow", "not-finite", "step", "starting-point", "contraction"}; bool num = false; // other failures are exact
        for (const char *k : numeric) num |= !f.kind.compare(0, strlen(k), k);
        if (!num) throw;
        bool slowly = f.kind == "not-solved" || f.kind == "slow", excused = slowly && refipm::method_stalls(g_unsolved.q, g_unsolved.rel, g_unsolved.abs, (int)g_unsolved.lim - 5);
        int okc = 0, tried = 0; const int K = 10;
        for (int stage = 0; stage < 2; ++stage) { // near siblings first, then distant ones
            double e = stage ? 0.4 : 0.05, lo = stage ? 0.2 : 0.4, hi = stage ? 5 : 2.5, sl = stage ? 0.4 : 0.7, sh = stage ? 2.5 : 1.4; int n = stage ? 2 * K : K; okc = 0;
            for (int k = 0; k < n && okc < 2; ++k) {
                QPD r = q; Planted v = w; for (auto &a : r.G) if (a != 0) a *= 1 + e * t.uni(-1, 1); for (auto &a : r.A) if (a != 0) a *= 1 + e * t.uni(-1, 1);
                Vec sc(q.n); for (auto &a : sc) a = t.uni(sl, sh); for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) r.Pe(i, j) *= sc[i] * sc[j];
                for (auto &a : v.z) a *= t.uni(lo, hi); for (auto &a : v.s) a *= t.uni(lo, hi);
                if (stage) renumber(r, v, t);
                plant_rhs(r, v); c.sub++; ++tried;
                try { run(r, v); ++okc; } catch (pbt::Fail &) { }
            }
            if (okc >= 2) break;
        }
        if (okc < 2) { // does only the built-in elimination order fail?
            int good = 0, n = 10; struct Safe { Safe() { g_safe_order = true; } ~Safe() { g_safe_order = false; } } safe;
            for (int k = 0; k < n; ++k) { QPD r = q; Planted v = w; if (k) { for (auto &a : v.z) a *= t.uni(0.4, 2.5); for (auto &a : v.s) a *= t.uni(0.4, 2.5); plant_rhs(r, v); } c.sub++; try { run(r, v); ++good; } catch (pbt::Fail &) { } }
            if (good >= 8) { okc = 2; c.label("replaced pivots under the built-in ordering"); }
        }
        if (okc < 2 && slowly) { // does the documented method itself, in higher precision, stall on these data as well (two step lengths: it can cycle)?
            bool all = excused; int n = 8;
            for (int k = 0; k < n && all; ++k) { QPD r = q; Planted v = w; for (auto &a : v.z) a *= t.uni(0.4, 2.5); for (auto &a : v.s) a *= t.uni(0.4, 2.5); plant_rhs(r, v); c.sub++; try { run(r, v); } catch (pbt::Fail &g) { all = (g.kind == "not-solved" || g.kind == "slow") && refipm::method_stalls(g_unsolved.q, g_unsolved.rel, g_unsolved.abs, (int)g_unsolved.lim - 5); } }
            if (all) { okc = 2; c.label("the method itself stalls in higher precision"); }
        }
        if (okc < 2) { f.msg += fmt(" (also on all but %d of %d perturbed siblings)", okc, tried); throw f; }
        c.label("numerical accident, siblings solved"); ++accidents;
        if (accidents >= 9 && accidents > 3e-5 * cases) { f.msg = fmt("%llu of %llu cases failed, though perturbed siblings of theirs did not; the last: ", (unsigned long long)accidents, (unsigned long long)cases) + f.msg; throw f; }
    }
}
