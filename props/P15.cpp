#include "qp.hpp"
const char *property_rule() { return "random symmetric matrices in compressed columns (quasi-definite with random role of each row, some with dependent rows, tiny or zero diagonals; explicit zeros, unsorted rows, repeated entries; empty to dense patterns, dimension 0 to 150), random permutation or none; symbolic counts against boolean elimination, L D L' against the permuted matrix and every triangular and permuted solve within rigorous rounding bounds, several numeric factorisations per analysis (also through the two alternative numeric routines, with full and partial updates, the columns of a partial one also named by test_reach); non-trivial when L has at least one entry below the diagonal"; }
typedef std::vector<qp_int> IV;
extern "C" void test_reach(qp_int *, qp_int *, qp_int *, qp_int, qp_int, qp_int) __attribute__((weak)); // the solver itself does not use it
struct Sys { int n; std::vector<char> pat; Vec M; Csc A; }; // dense column-major
static void build(Tape &t, Sys &S, bool uns, bool dup)
{
    int n = S.n; S.A = Csc(); S.A.m = S.A.n = n; S.A.jc.push_back(0); pbt::Rng r(t.raw());
    for (int j = 0; j < n; ++j) {
        std::vector<std::pair<qp_int, double>> col; for (int i = 0; i < n; ++i) if (S.pat[(size_t)j * n + i]) { double v = S.M[(size_t)j * n + i]; if (dup && v != 0 && std::fabs(v) > 1e-280 && r.below(4) == 0) { col.push_back({i, v * 0.5}); col.push_back({i, v * 0.5}); } else col.push_back({i, v}); }
        if (uns) for (size_t k = col.size(); k > 1; --k) std::swap(col[k - 1], col[k - 1 - r.below(k)]);
        for (auto &e : col) { S.A.ir.push_back(e.first); S.A.pr.push_back(e.second); } S.A.jc.push_back((qp_int)S.A.ir.size());
    }
    S.A.ir.shrink_to_fit(); S.A.pr.shrink_to_fit(); S.A.jc.shrink_to_fit();
}
static void values(Tape &t, Sys &S, const std::vector<int> &role, int kind)
{
    int n = S.n; pbt::Rng r(t.raw()); auto u = [&]() { return (double)(r.next() >> 11) / 4503599627370496.0 - 1; };
    double zf = t.chance(1, 4) ? 0.15 : 0; double sc = t.chance(1, 5) ? std::pow(10., (double)t.range(-6, 6)) : 1;
    for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) if (S.pat[(size_t)j * n + i]) { double v = kind == 2 ? (double)((long)r.below(5) - 2) : u(); if (r.below(1000) < zf * 1000) v = 0; S.M[(size_t)j * n + i] = S.M[(size_t)i * n + j] = v; }
    for (int i = 0; i < n; ++i) {
        double a = 0; for (int j = 0; j < n; ++j) if (j != i && role[j] == role[i]) a += std::fabs(S.M[(size_t)j * n + i]);
        double d = kind == 2 ? a + 1 + (double)r.below(3) : a + 0.05 + std::fabs(u()); S.M[(size_t)i * n + i] = role[i] ? -d : d; // quasi-definite
    }
    if (kind == 1) { // tiny and zero pivots
        static const double tiny[] = {0.0, -0.0, 1e-15, -1e-15, 9e-15, -9e-15, 1.2e-14, -1.2e-14, 5e-14, -1e-13, 1e-12, 5e-324, 1e-300, -1e-300, 1e-9, -1e-7, 1e-14, -1e-14, 1.00000000000001e-14, 0.99999999999999e-14};
        for (int i = 0; i < n; ++i) if (r.below(3) == 0) { S.M[(size_t)i * n + i] = tiny[r.below(20)]; if (r.below(2)) for (int j = 0; j < n; ++j) if (j != i) S.M[(size_t)j * n + i] = S.M[(size_t)i * n + j] = 0; }
    }
    if (kind == 2 && n > 1 && r.below(2)) { int a = (int)r.below(n), b = (int)r.below(n); if (a != b) { for (int j = 0; j < n; ++j) { S.M[(size_t)j * n + b] = S.M[(size_t)j * n + a]; } for (int j = 0; j < n; ++j) S.M[(size_t)b * n + j] = S.M[(size_t)a * n + j]; for (int j = 0; j < n; ++j) S.M[(size_t)j * n + b] = S.M[(size_t)b * n + j] = S.M[(size_t)j * n + a]; S.M[(size_t)b * n + b] = S.M[(size_t)a * n + a]; S.M[(size_t)a * n + b] = S.M[(size_t)b * n + a] = S.M[(size_t)a * n + a]; for (size_t k = 0; k < S.M.size(); ++k) if (S.M[k] != 0) S.pat[k] = 1; } } // two equal rows
    if (sc != 1 && kind != 1) for (auto &v : S.M) v *= sc;
}
static void check_factor(Ctx &c, const char *who, const Sys &S, const IV &P, const IV &Lp, const IV &Li, const Vec &Lx, const Vec &D, bool replaced_ok)
{
    int n = S.n; std::vector<ld> R((size_t)n * n, 0), B((size_t)n * n, 0); std::vector<int> cnt((size_t)n * n, 0);
    for (int k = 0; k < n; ++k) {
        std::vector<std::pair<int, ld>> col; col.push_back({k, 1.0L}); for (long a = Lp[k]; a < Lp[k + 1]; ++a) col.push_back({(int)Li[a], (ld)Lx[a]});
        for (auto &u : col) for (auto &v : col) if (u.first >= v.first) { ld p = u.second * v.second * D[k]; size_t id = (size_t)v.first * n + u.first; R[id] += p; B[id] += fabsl(p); cnt[id]++; }
    }
    for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) {
        size_t id = (size_t)j * n + i; ld want = S.M[(size_t)P[j] * n + P[i]], b = EPS * (cnt[id] + 6) * (B[id] + fabsl(want)) + 1e-320L, e = R[id] - want;
        if (i != j) { if (!(fabsl(e) <= b)) fail("factor", fmt("%s: (L D L')(%d,%d) = %.17Lg, permuted matrix has %.17Lg (rounding bound %Lg)", who, i, j, R[id], want, b)); continue; }
        double d = D[i]; if (!(std::fabs(d) > 1e-14)) fail("small pivot kept", fmt("%s: pivot %d is %.17g", who, i, d));
        if (fabsl(e) <= b) { c.metric("factor error / bound", (double)(fabsl(e) / b)); continue; }
        ld before = (ld)d - e; // the pivot before replacement
        bool rep = std::fabs(d) >= 1e-9 && std::fabs(d) <= 1e-5; c.label("replaced pivot");
        if (!rep) fail("factor", fmt("%s: (L D L')(%d,%d) = %.17Lg, permuted matrix has %.17Lg (rounding bound %Lg, pivot %.17g)", who, i, i, R[id], want, b, d));
        if (!(fabsl(before) <= 1.001e-14L + b)) fail("pivot replaced", fmt("%s: pivot %d of value %.17Lg was replaced by %.17g", who, i, before, d));
        if (fabsl(before) > 2 * b && (before < 0) != (d < 0)) fail("pivot sign", fmt("%s: pivot %d of value %.17Lg was replaced by %.17g", who, i, before, d));
    }
}
void property(Tape &t, Ctx &c)
{
    Sys S; S.n = t.chance(1, 40) ? (int)t.dim(0, t.chance(1, 20) ? 320 : 150) : t.chance(1, 5) ? (int)t.dim(0, 40) : (int)t.dim(0, 14); int n = S.n; S.pat.assign((size_t)n * n, 0); S.M.assign((size_t)n * n, 0); int kind = t.pick({6, 2, 2});
    std::vector<int> role(n); int mix = t.pick({1, 3}); for (auto &r : role) r = mix ? (int)t.below(2) : 0;
    int shape = t.pick({4, 1, 1, 1, 1}); pbt::Rng r(t.raw()); int den = (int)t.range(1, 6);
    auto edge = [&](int a, int b) { if (a != b) S.pat[(size_t)a * n + b] = S.pat[(size_t)b * n + a] = 1; };
    if (n) switch (shape) { case 0: for (int k = 0; k < n * den / 2; ++k) edge((int)r.below(n), (int)r.below(n)); break; case 1: for (int i = 1; i < n; ++i) edge(i, (int)r.below(i)); break; case 2: for (int i = 1; i < n; ++i) { edge(i, i - 1); edge(0, i); } break; case 3: for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) edge(i, j); break; default: for (int i = 0; i < n; ++i) for (int j = std::max(0, i - den); j < i; ++j) edge(i, j); }
    for (int i = 0; i < n; ++i) S.pat[(size_t)i * n + i] = 1;
    bool uns = t.chance(1, 3), dup = t.chance(1, 4); values(t, S, role, kind); build(t, S, uns, dup);
    if (n && kind == 1 && t.chance(1, 3)) { for (int i = 0; i < n; ++i) if (S.M[(size_t)i * n + i] == 0) S.pat[(size_t)i * n + i] = 0; build(t, S, uns, dup); c.label("absent diagonal entries"); }
    int pk = t.pick({1, 3, 1}); IV P, Pinv; bool use = pk != 0; if (use) { P = gen_perm(t, n); P.shrink_to_fit(); if (pk == 2 && n) { std::stable_sort(P.begin(), P.end(), [&](qp_int a, qp_int b) { return role[a] < role[b]; }); } Pinv.assign(n, -9); Pinv.shrink_to_fit(); } IV Pe(n); for (int i = 0; i < n; ++i) Pe[i] = use ? P[i] : i;
    c.note("n=%d kind=%d shape=%d unsorted=%d repeated=%d permutation=%d", n, kind, shape, uns, dup, use); c.vec("M (column-major)", S.M); c.vec("P", Pe); c.label(kind == 0 ? "quasi-definite" : kind == 1 ? "tiny pivots" : "integer values"); if (!use) c.label("no permutation");
    qp_int z0 = 0; double d0 = 0; auto pi = [&](IV &v) { return v.empty() ? &z0 : v.data(); }; auto pd = [&](Vec &v) { return v.empty() ? &d0 : v.data(); };
    IV Lp(n + 1, -5), Par(n, -5), Lnz(n, -5), Flag(n), Pat(n); for (auto &v : Flag) v = (qp_int)t.raw(); for (auto *v : {&Lp, &Par, &Lnz, &Flag, &Pat}) v->shrink_to_fit(); Csc keep = S.A; IV Pk = P;
    LDL_symbolic(n, S.A.jc.data(), S.A.I(), Lp.data(), pi(Par), pi(Lnz), pi(Flag), use ? pi(P) : 0, use ? pi(Pinv) : 0);
    // boolean elimination
    std::vector<char> E((size_t)n * n, 0); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) E[(size_t)j * n + i] = S.pat[(size_t)Pe[j] * n + Pe[i]] || S.pat[(size_t)Pe[i] * n + Pe[j]];
    long total = 0;
    for (int k = 0; k < n; ++k) { std::vector<int> rows; for (int i = k + 1; i < n; ++i) if (E[(size_t)k * n + i]) rows.push_back(i); for (int a : rows) for (int b : rows) E[(size_t)b * n + a] = 1;
        if (Lnz[k] != (qp_int)rows.size()) fail("symbolic", fmt("column %d of L predicted with %ld entries, elimination gives %zu", k, (long)Lnz[k], rows.size())); total += (long)rows.size(); if (Lp[k + 1] != total) fail("symbolic", fmt("column pointer %d is %ld, expected %ld", k + 1, (long)Lp[k + 1], total)); if (Par[k] != (rows.empty() ? -1 : rows[0])) fail("symbolic", fmt("parent of %d is %ld, expected %d", k, (long)Par[k], rows.empty() ? -1 : rows[0])); }
    if (Lp[0] != 0) fail("symbolic", "first column pointer is not zero"); if (use) for (int i = 0; i < n; ++i) if (Pinv[Pe[i]] != i) fail("symbolic", "wrong inverse permutation");
    c.nontrivial = total > 0; IV Li(total, -3); Vec Lx(total, NAN), D(n, NAN), Y(n, NAN); auto soil = [&]() { if (t.chance(1, 2)) return; pbt::Rng g(t.raw()); for (Vec *v : {&Y, &D, &Lx}) for (double &x : *v) x = g.below(5) ? (double)((long)g.below(2001) - 1000) / 16 : 0; for (auto &v : Pat) v = (qp_int)g.next(); for (auto &v : Li) v = (qp_int)g.next(); c.label("workspaces hold finite left-overs"); }; Li.shrink_to_fit(); Lx.shrink_to_fit(); D.shrink_to_fit(); Y.shrink_to_fit(); IV Lp0 = Lp, Par0 = Par; int reps = (int)t.range(1, 3);
    for (int rep = 0; rep < reps; ++rep) {
        if (!rep) soil();
        if (rep) { auto pat0 = S.pat; values(t, S, role, kind == 2 ? 0 : kind); if (S.pat != pat0) S.pat = pat0; for (size_t a = 0; a < S.M.size(); ++a) if (!S.pat[a]) S.M[a] = 0; build(t, S, uns, dup); keep = S.A; for (auto &v : Flag) v = (qp_int)t.raw(); }
        int via = rep ? t.pick({4, 1, 1}) : 0; if (via == 2 && dup) via = 1; c.sub++; const char *who = via == 0 ? "LDL_numeric" : via == 1 ? "LDL_row_cache_numeric" : "LDL_cache_numeric"; c.label(who); qp_int ret;
        if (via == 0) ret = LDL_numeric(n, S.A.jc.data(), S.A.I(), S.A.X(), Lp.data(), pi(Par), pi(Lnz), pi(Li), pd(Lx), pd(D), pd(Y), pi(Pat), pi(Flag), use ? pi(P) : 0, use ? pi(Pinv) : 0);
        else { IV Lti(total), Ltp(n + 1), U(n, n); Transpose_Row_Count(n, n, pi(Li), Lp.data(), pi(Lti), Ltp.data()); std::fill(Y.begin(), Y.end(), 0.0); std::fill(D.begin(), D.end(), NAN); std::fill(Lx.begin(), Lx.end(), NAN);
            if (via == 1) ret = LDL_row_cache_numeric(n, S.A.jc.data(), S.A.I(), S.A.X(), Ltp.data(), pi(Lti), pi(Li), Lp.data(), pd(Lx), pd(D), pd(Y), use ? pi(P) : 0, use ? pi(Pinv) : 0, pi(U)); else ret = LDL_cache_numeric(n, S.A.jc.data(), S.A.I(), S.A.X(), Ltp.data(), pi(Lti), pi(Li), Lp.data(), pd(Lx), pd(D), pd(Y), use ? pi(P) : 0, use ? pi(Pinv) : 0, pi(U));
            bool ok = ret == n && t.chance(1, 2); for (double v : Lx) ok &= std::isfinite(v); for (double v : D) ok &= std::isfinite(v);
            if (ok) { // some diagonal entries change: only the columns they reach are recomputed
                std::fill(U.begin(), U.end(), (qp_int)-2); IV pos(n); for (int k = 0; k < n; ++k) pos[Pe[k]] = k; long ch = 0, re = 0; bool own = n && &test_reach && t.chance(1, 2); int tail = own ? (int)t.range(0, n) : 0; for (int j = 0; j < n; ++j) if (own ? j >= n - tail : t.chance(1, 3)) { double f = t.chance(1, 2) ? 4 : 2; S.M[(size_t)j * n + j] *= f; ++ch; for (long a = S.A.jc[j]; a < S.A.jc[j + 1]; ++a) if (S.A.ir[a] == j) S.A.pr[a] *= f; for (qp_int k = pos[j]; k >= 0 && U[k] != n; k = Par[k]) U[k] = n, ++re; }
                if (own) { // the library names the columns that the trailing diagonal entries reach
                    IV V(n, -2); V.shrink_to_fit(); int eq = (int)t.range(0, n - tail); test_reach(pi(Par), pi(pos), V.data(), n - tail - eq, tail, eq); c.label("columns named by test_reach"); for (int k = 0; k < n; ++k) if ((U[k] == n) != (V[k] == n) && !(k == n - 1 && V[k] == n)) fail("reach", fmt("column %d %s by the %d trailing diagonal entries and test_reach %s it", k, U[k] == n ? "is reached" : "is not reached", tail, V[k] == n ? "names" : "does not name")); U = V; }
                keep = S.A; c.label("partial update"); if (re < n) c.label("columns kept"); c.sub++;
                if (via == 1) ret = LDL_row_cache_numeric(n, S.A.jc.data(), S.A.I(), S.A.X(), Ltp.data(), pi(Lti), pi(Li), Lp.data(), pd(Lx), pd(D), pd(Y), use ? pi(P) : 0, use ? pi(Pinv) : 0, pi(U)); else ret = LDL_cache_numeric(n, S.A.jc.data(), S.A.I(), S.A.X(), Ltp.data(), pi(Lti), pi(Li), Lp.data(), pd(Lx), pd(D), pd(Y), use ? pi(P) : 0, use ? pi(Pinv) : 0, pi(U));
            }
        }
        if (ret != n) fail("status", fmt("%s returned %ld for dimension %d", who, (long)ret, n));
        if (S.A.jc != keep.jc || S.A.ir != keep.ir || !same_bits(S.A.pr, keep.pr) || P != Pk || Lp != Lp0 || Par != Par0) fail("input-modified", who);
        long tot2 = 0; for (int k = 0; k < n; ++k) { std::vector<char> seen(n, 0); for (long a = Lp[k]; a < Lp[k + 1]; ++a, ++tot2) if (Li[a] <= k || Li[a] >= n || seen[Li[a]]++ || !E[(size_t)k * n + Li[a]]) fail("structure", fmt("%s: column %d of L has row index %ld", who, k, (long)Li[a])); if (via == 0 && Lnz[k] != Lp[k + 1] - Lp[k]) fail("structure", fmt("%s: column %d of L holds %ld entries, the analysis predicted %ld", who, k, (long)Lnz[k], (long)(Lp[k + 1] - Lp[k]))); }
        bool fin = true; for (double v : Lx) fin &= std::isfinite(v) && std::fabs(v) < 1e140; for (double v : D) fin &= std::isfinite(v) && std::fabs(v) < 1e140; if (!fin) { if (kind != 1) { bool nan = false; for (double v : D) nan |= v != v; if (nan) fail("factor", fmt("%s: NaN pivot", who)); } c.label("factor overflows"); continue; }
        check_factor(c, who, S, Pe, Lp, Li, Lx, D, true);
        // solves
        Vec b(n), x(n, NAN); for (auto &v : b) v = t.chance(1, 6) ? 0 : t.val(); Vec b0 = b; auto bnd = [&](const char *w, int i, ld res, ld mag, int k) { if (!(fabsl(res) <= EPS * (k + 4) * mag + 1e-300L)) fail(w, fmt("component %d: residual %Lg, rounding bound %Lg", i, res, EPS * (k + 4) * mag)); };
        std::vector<ld> res(n), mag(n); std::vector<int> cn(n); Vec v = b; LDL_lsolve(n, pd(v), Lp.data(), pi(Li), pd(Lx));
        for (int i = 0; i < n; ++i) res[i] = (ld)v[i] - b[i], mag[i] = fabsl(v[i]) + fabsl(b[i]), cn[i] = 1; for (int k = 0; k < n; ++k) for (long a = Lp[k]; a < Lp[k + 1]; ++a) { ld p = (ld)Lx[a] * v[k]; res[Li[a]] += p; mag[Li[a]] += fabsl(p); cn[Li[a]]++; } for (int i = 0; i < n; ++i) bnd("forward solve", i, res[i], mag[i], cn[i]);
        v = b; LDL_ltsolve(n, pd(v), Lp.data(), pi(Li), pd(Lx)); for (int k = 0; k < n; ++k) { ld s = (ld)v[k] - b[k], g = fabsl(v[k]) + fabsl(b[k]); for (long a = Lp[k]; a < Lp[k + 1]; ++a) { ld p = (ld)Lx[a] * v[Li[a]]; s += p; g += fabsl(p); } bnd("backward solve", k, s, g, (int)(Lp[k + 1] - Lp[k])); }
        v = b; LDL_dsolve(n, pd(v), pd(D)); for (int i = 0; i < n; ++i) bnd("diagonal solve", i, (ld)v[i] * D[i] - b[i], fabsl(b[i]), 1);
        if (use) { LDL_perm(n, pd(x), pd(b), pi(P)); for (int i = 0; i < n; ++i) if (x[i] != b[P[i]]) fail("permute", fmt("component %d", i)); Vec y(n, NAN); LDL_permt(n, pd(y), pd(b), pi(P)); for (int i = 0; i < n; ++i) if (y[P[i]] != b[i]) fail("inverse permute", fmt("component %d", i)); } else x = b;
        LDL_lsolve(n, pd(x), Lp.data(), pi(Li), pd(Lx)); LDL_dsolve(n, pd(x), pd(D)); LDL_ltsolve(n, pd(x), Lp.data(), pi(Li), pd(Lx)); if (use) { Vec y(n, NAN); LDL_permt(n, pd(y), pd(x), pi(P)); x = y; }
        if (!same_bits(b, b0)) fail("input-modified", "right-hand side");
        // (A + shifts) x = b up to the backward error of the factors
        std::vector<ld> W(n, 0), r2(n), Lt(n, 0), Dm(n, 0); for (int k = 0; k < n; ++k) { ld s = fabsl(x[Pe[k]]); for (long a = Lp[k]; a < Lp[k + 1]; ++a) s += fabsl((ld)Lx[a]) * fabsl(x[Pe[Li[a]]]); Lt[k] = s * fabsl(D[k]); } for (int k = 0; k < n; ++k) { W[k] += Lt[k]; for (long a = Lp[k]; a < Lp[k + 1]; ++a) W[Li[a]] += fabsl((ld)Lx[a]) * Lt[k]; }
        bool rep_piv = false; if (kind) for (int i = 0; i < n; ++i) { ld q = D[i], s = S.M[(size_t)Pe[i] * n + Pe[i]]; if (std::fabs(D[i]) <= 1e-5) rep_piv = true; (void)q; (void)s; } if (rep_piv) continue;
        for (int i = 0; i < n; ++i) { ld s = -(ld)b[Pe[i]], g = fabsl(b[Pe[i]]) + W[i]; for (int j = 0; j < n; ++j) { ld p = (ld)S.M[(size_t)Pe[j] * n + Pe[i]] * x[Pe[j]]; s += p; g += fabsl(p); } if (!std::isfinite((double)g)) break; if (!(fabsl(s) <= EPS * (4 * n + 30) * g + 1e-300L)) fail("solution", fmt("%s: residual %Lg in row %d, rounding bound %Lg", who, s, (int)Pe[i], EPS * (4 * n + 30) * g)); c.metric("solution residual / bound", (double)(fabsl(s) / (EPS * (4 * n + 30) * g + 1e-300L))); }
    }
}
