// The documented predictor-corrector method in long double (reference model), with pivoting and
// a dense reduced system; shared by P13 and by the sibling rule in qp.hpp.
#pragma once
namespace refipm {
typedef std::vector<ld> LV;
inline bool lu_solve(int N, LV &M, std::vector<LV *> rhs)
{
    for (int k = 0; k < N; ++k) {
        int b = k; for (int i = k + 1; i < N; ++i) if (fabsl(M[i * N + k]) > fabsl(M[b * N + k])) b = i;
        if (!(fabsl(M[b * N + k]) > 1e-17L)) return false;
        if (b != k) { for (int j = 0; j < N; ++j) std::swap(M[b * N + j], M[k * N + j]); for (auto *r : rhs) std::swap((*r)[b], (*r)[k]); }
        for (int i = k + 1; i < N; ++i) { ld f = M[i * N + k] / M[k * N + k]; if (f == 0) continue; M[i * N + k] = 0; for (int j = k + 1; j < N; ++j) M[i * N + j] -= f * M[k * N + j]; for (auto *r : rhs) (*r)[i] -= f * (*r)[k]; }
    }
    for (auto *r : rhs) for (int k = N - 1; k >= 0; --k) { ld a = (*r)[k]; for (int j = k + 1; j < N; ++j) a -= M[k * N + j] * (*r)[j]; (*r)[k] = a / M[k * N + k]; }
    return true;
}
struct Pt { LV x, y, z, s; };
// solves [P A' G'; A 0 0; G 0 -W] d = (r1,r2,r3) with W = diag(w)
inline bool kktsys(const QPD &q, const LV &w, const LV &r1, const LV &r2, const LV &r3, LV &dx, LV &dy, LV &dz)
{
    int n = q.n, m = q.m, p = q.p, N = n + p; LV M((size_t)N * N, 0), b(N, 0);
    for (int i = 0; i < n; ++i) { b[i] = r1[i]; for (int j = 0; j < n; ++j) M[i * N + j] = q.Pe(i, j); }
    for (int k = 0; k < m; ++k) { ld iw = 1 / w[k]; for (int i = 0; i < n; ++i) { ld g = q.Ge(k, i); if (g == 0) continue; g *= iw; b[i] += g * r3[k]; for (int j = 0; j < n; ++j) M[i * N + j] += g * q.Ge(k, j); } }
    for (int k = 0; k < p; ++k) { b[n + k] = r2[k]; for (int i = 0; i < n; ++i) M[(n + k) * N + i] = M[i * N + n + k] = q.Ae(k, i); }
    if (!lu_solve(N, M, {&b})) return false;
    dx.assign(b.begin(), b.begin() + n); dy.assign(b.begin() + n, b.end()); dz.assign(m, 0);
    for (int k = 0; k < m; ++k) { ld a = -r3[k]; for (int j = 0; j < n; ++j) a += (ld)q.Ge(k, j) * dx[j]; dz[k] = a / w[k]; }
    return true;
}
inline ld blocking(const LV &v, const LV &d, bool &some) { ld a = 1e10L; some = false; for (size_t i = 0; i < v.size(); ++i) if (d[i] < 0) { ld r = -v[i] / d[i]; if (r < a) a = r, some = true; } return some ? a : 1; }
struct Step { Pt to; ld sigma, ap, ad; bool bp, bd; Pt d; bool ok = false; };
inline Step ref_step(const QPD &q, const Pt &a, bool centring, ld sigma_d)
{
    int n = q.n, m = q.m, p = q.p; Step R; LV r1(n), r2(p), r3(m), w(m), ds(m), t(m);
    for (int j = 0; j < n; ++j) { ld v = -(ld)q.c[j]; for (int i = 0; i < n; ++i) v -= (ld)q.Pe(j, i) * a.x[i]; for (int i = 0; i < m; ++i) v -= (ld)q.Ge(i, j) * a.z[i]; for (int i = 0; i < p; ++i) v -= (ld)q.Ae(i, j) * a.y[i]; r1[j] = v; }
    for (int i = 0; i < p; ++i) { ld v = q.b[i]; for (int j = 0; j < n; ++j) v -= (ld)q.Ae(i, j) * a.x[j]; r2[i] = v; }
    ld mu = 0;
    for (int i = 0; i < m; ++i) { ld v = (ld)q.h[i] - a.s[i]; for (int j = 0; j < n; ++j) v -= (ld)q.Ge(i, j) * a.x[j]; r3[i] = v; w[i] = a.s[i] / a.z[i]; mu += a.s[i] * a.z[i]; }
    ld sz = mu; mu /= m; LV dx, dy, dz, S(m), rr(m);
    auto dir = [&]() { for (int i = 0; i < m; ++i) rr[i] = r3[i] - ds[i] / a.z[i]; if (!kktsys(q, w, r1, r2, rr, dx, dy, dz)) return false; for (int i = 0; i < m; ++i) S[i] = (ds[i] - a.s[i] * dz[i]) / a.z[i]; return true; };
    bool b1, b2;
    if (!centring) {
        for (int i = 0; i < m; ++i) ds[i] = -a.s[i] * a.z[i];
        if (!dir()) return R;
        ld ap = blocking(a.s, S, b1), ad = blocking(a.z, dz, b2), rho = 0; for (int i = 0; i < m; ++i) rho += (a.s[i] + ap * S[i]) * (a.z[i] + ad * dz[i]); rho /= sz;
        ld r = std::min<ld>(1, rho); R.sigma = std::max(sigma_d, r * r * r);
        for (int i = 0; i < m; ++i) ds[i] = -a.s[i] * a.z[i] - S[i] * dz[i] + R.sigma * mu;
    } else { R.sigma = sigma_d; for (int i = 0; i < m; ++i) ds[i] = -a.s[i] * a.z[i] + sigma_d * mu; }
    if (!dir()) return R;
    R.ap = std::min<ld>(1, 0.99L * blocking(a.s, S, R.bp)); R.ad = std::min<ld>(1, 0.99L * blocking(a.z, dz, R.bd));
    R.d = {dx, dy, dz, S}; R.ok = true; return R;
}
inline void move(Step &R, const Pt &a, ld ap, ld ad) { R.to = a; for (size_t i = 0; i < a.x.size(); ++i) R.to.x[i] += ap * R.d.x[i]; for (size_t i = 0; i < a.y.size(); ++i) R.to.y[i] += ad * R.d.y[i]; for (size_t i = 0; i < a.z.size(); ++i) { R.to.z[i] += ad * R.d.z[i]; R.to.s[i] += ap * R.d.s[i]; } }
inline bool ref_start(const QPD &q, Pt &a, int variant)
{
    int n = q.n, m = q.m, p = q.p; LV r1(n), r2(q.b.begin(), q.b.end()), r3(q.h.begin(), q.h.end()), w(m, 1), zi; for (int j = 0; j < n; ++j) r1[j] = -(ld)q.c[j];
    if (!kktsys(q, w, r1, r2, r3, a.x, a.y, zi)) return false;
    LV r(m); ld lo = INFINITY, hi = -INFINITY; for (int i = 0; i < m; ++i) { ld v = q.h[i]; for (int j = 0; j < n; ++j) v -= (ld)q.Ge(i, j) * a.x[j]; r[i] = v; lo = std::min(lo, v); hi = std::max(hi, v); }
    ld tiny = 1e-9L * (1 + fabsl(lo) + fabsl(hi)); bool sp = lo > 0, zp = hi < 0; if (variant & 1 && fabsl(lo) < tiny) sp = !sp; if (variant & 2 && fabsl(hi) < tiny) zp = !zp;
    a.s.resize(m); a.z.resize(m); for (int i = 0; i < m; ++i) { a.s[i] = sp ? r[i] : r[i] + 1 - lo; a.z[i] = zp ? -r[i] : -r[i] + 1 + hi; }
    return true;
}
// Does the method itself, carried out in higher precision with default settings, fail to reach the
// tolerances within lim iterations - on the data as given or on data moved by a tiny amount?
inline bool method_stalls(const QPD &q0, double rel, double abs, int lim)
{
    if (q0.n + q0.p > 120) return false;
    for (int v = 0; v < 4; ++v) {
        QPD q = q0; if (v) { pbt::Rng r(v); for (Vec *k : {&q.c, &q.h, &q.b}) for (double &a : *k) a *= 1 + std::pow(10., -12 + 3 * v) * ((double)(r.next() >> 11) / 4503599627370496.0 - 1); }
        Pt a; if (!ref_start(q, a, 0)) continue; bool done = false, cent = false;
        for (int it = 0; it < lim; ++it) {
            Vec x(a.x.begin(), a.x.end()), y(a.y.begin(), a.y.end()), z(a.z.begin(), a.z.end()), s(a.s.begin(), a.s.end()); Resid r = residuals(q, x, y, z, s);
            if (!r.finite) break;
            if (r.rx < rel && r.ry < rel && r.rz < rel && r.mu < abs) { done = true; break; }
            Step R = ref_step(q, a, cent, 0); if (!R.ok) { done = true; break; } // singular to the last digit: nothing is known
            cent = R.sigma <= 0; move(R, a, R.ap, R.ad); a = R.to;
        }
        if (!done) return true;
    }
    return false;
}
} // namespace refipm
