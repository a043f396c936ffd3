// The properties on very large sparse problems; BIG is the number of the property.
#include "graph.hpp"
#include "bigqp.hpp"
const char *property_rule() { return "sparse problems and matrices with up to about 131000 rows or columns (sizes around powers of two favoured): many inequalities over few variables, many variables, a dense equality, many equalities; same oracles as the main unit, on sparse data; non-trivial when the dimension exceeds 4000"; }
static void certificate(BigQP &q, const Sol &a)
{
    Resid R = big_residuals(q, a.x.data(), a.y.data(), a.z.data(), a.s.data()); ld tol = RELTOL;
    if (!R.finite) fail("certificate", "optimal exit with a non-finite point"); if (R.smin < 0 || R.zmin < 0) fail("certificate", fmt("optimal exit with s >= %Lg, z >= %Lg", R.smin, R.zmin));
    if (!(R.rx < tol + R.ex) || !(R.ry < tol + R.ey) || !(R.rz < tol + R.ez) || !(R.mu < ABSTOL + R.emu)) fail("certificate", fmt("optimal exit with residuals %Lg %Lg %Lg, complementarity %Lg", R.rx, R.ry, R.rz, R.mu));
}
// how far x may be from the planted minimiser at a point with these residuals
static void near_planted(BigQP &q, const Sol &a, const char *who)
{
    Resid R = big_residuals(q, a.x.data(), a.y.data(), a.z.data(), a.s.data()); ld dx = 0, dz = 0, dy = 0, gap = 0; for (long i = 0; i < q.n; ++i) dx += powl((ld)a.x[i] - q.x[i], 2); for (long i = 0; i < q.m; ++i) { dz += powl((ld)a.z[i] - q.z[i], 2); gap += (ld)a.z[i] * a.s[i]; } for (long i = 0; i < q.p; ++i) dy += powl((ld)a.y[i] - q.y[i], 2);
    dx = sqrtl(dx); ld rhs = (R.rx + R.ex) * dx + gap + (R.rz + R.ez) * sqrtl(dz) + (R.ry + R.ey) * sqrtl(dy) + 1e-9L * (1 + dx); if (q.lam * dx * dx > rhs * 1.0001L + 1e-12L) fail("wrong solution", fmt("%s: distance to the minimiser %Lg, residuals allow %Lg", who, dx, sqrtl(rhs / q.lam)));
}
static const char *diff(const Sol &a, const Sol &b) { return a.flag != b.flag ? "exit code" : a.it != b.it ? "iteration count" : !same_bits(a.x, b.x) ? "x" : !same_bits(a.y, b.y) ? "y" : !same_bits(a.z, b.z) ? "z" : !same_bits(a.s, b.s) ? "s" : memcmp(&a.fval, &b.fval, 8) || memcmp(&a.nrx, &b.nrx, 8) || memcmp(&a.nry, &b.nry, 8) || memcmp(&a.nrz, &b.nrz, 8) || memcmp(&a.nmu, &b.nmu, 8) ? "reported figures" : nullptr; }
#if BIG == 14 || BIG == 15
static smat view(Csc &M) { smat s; s.m = M.m; s.n = M.n; s.nnz = (qp_int)M.ir.size(); s.jc = M.jc.data(); s.ir = M.I(); s.pr = M.X(); return s; }
#endif
#if BIG == 15
static void ldl(Tape &t, Ctx &c)
{
    int n = (int)big_dim(t), kind = t.pick({2, 1, 2, 1, 1, 1, 2, 1}); static const int ks[] = {G_TREE, G_FOREST, G_BAND, G_STAR, G_ARROW, G_BLOCKS, G_MPC, G_GRID}; kind = ks[kind]; pbt::Rng r(t.raw()); if (kind == G_GRID) n = std::min(n, 33000); Graph g = gen_graph(kind, n, r); bool sh = t.chance(1, 2); std::vector<int> w = shuffle(n, r); if (!sh) for (int i = 0; i < n; ++i) w[i] = i;
    // values: quasi-definite by dominance; the permutation undoes the shuffle (the natural order has little fill)
    std::vector<std::vector<std::pair<qp_int, double>>> col(n); Vec dia(n, 0.3); std::vector<char> role(n); for (auto &v : role) v = (char)r.below(2); for (auto &e : g.e) { double v = ru(r, -1, 1); int a = w[e.first], b = w[e.second]; col[a].push_back({b, v}); col[b].push_back({a, v}); if (role[a] == role[b]) { dia[a] += std::fabs(v); dia[b] += std::fabs(v); } }
    Csc M; M.m = M.n = n; M.jc.push_back(0); for (int j = 0; j < n; ++j) { col[j].push_back({j, role[j] ? -dia[j] : dia[j]}); std::sort(col[j].begin(), col[j].end()); for (auto &e : col[j]) { M.ir.push_back(e.first); M.pr.push_back(e.second); } M.jc.push_back((qp_int)M.ir.size()); } for (std::vector<qp_int> *v : {&M.jc, &M.ir}) v->shrink_to_fit(); M.pr.shrink_to_fit();
    std::vector<qp_int> P(n), Pi(n, -1), Lp(n + 1), Par(n), Lnz(n), Fl(n), Pt(n); for (int k = 0; k < n; ++k) P[k] = w[k]; c.note("%s of dimension %d%s", gname(kind), n, sh ? ", shuffled" : ""); c.label(gname(kind)); c.nontrivial = n > 4000; bool use = sh || t.chance(1, 2); Csc M0 = M;
    LDL_symbolic(n, M.jc.data(), M.I(), Lp.data(), Par.data(), Lnz.data(), Fl.data(), use ? P.data() : 0, use ? Pi.data() : 0);
    std::vector<int> pos(n), par(n, -1), fl(n, -1); std::vector<long> cnt(n, 0); std::vector<std::vector<int>> up(n); for (auto &e : g.e) up[std::max(e.first, e.second)].push_back(std::min(e.first, e.second)); for (int k = 0; k < n; ++k) { fl[k] = k; for (int i : up[k]) while (fl[i] != k) { if (par[i] < 0) par[i] = k; cnt[i]++; fl[i] = k; i = par[i]; } }
    long tot = 0; for (int k = 0; k < n; ++k) { tot += cnt[k]; if (Lnz[k] != cnt[k] || Lp[k + 1] != tot || Par[k] != par[k]) fail("symbolic", fmt("column %d: %ld entries, pointer %ld, parent %ld; expected %ld, %ld, %d", k, (long)Lnz[k], (long)Lp[k + 1], (long)Par[k], cnt[k], tot, par[k])); if (use && Pi[P[k]] != k) fail("symbolic", "inverse permutation"); }
    std::vector<qp_int> Li(tot + 1, -3); Vec Lx(tot + 1, NAN), D(n, NAN), Y(n, NAN); if (LDL_numeric(n, M.jc.data(), M.I(), M.X(), Lp.data(), Par.data(), Lnz.data(), Li.data(), Lx.data(), D.data(), Y.data(), Pt.data(), Fl.data(), use ? P.data() : 0, use ? Pi.data() : 0) != n) fail("status", "numeric factorisation did not finish");
    if (M.ir != M0.ir || M.jc != M0.jc || !same_bits(M.pr, M0.pr)) fail("input-modified", "matrix");
    Vec b(n), x(n, NAN), b0; for (auto &v : b) v = ru(r, -1, 1); b0 = b; if (use) LDL_perm(n, x.data(), b.data(), P.data()); else x = b; LDL_lsolve(n, x.data(), Lp.data(), Li.data(), Lx.data()); LDL_dsolve(n, x.data(), D.data()); LDL_ltsolve(n, x.data(), Lp.data(), Li.data(), Lx.data()); Vec u(n, NAN); if (use) LDL_permt(n, u.data(), x.data(), P.data()); else u = x; if (!same_bits(b, b0)) fail("input-modified", "right-hand side");
    // backward error: |A u - b| against |P'| |L| |D| |L'| |P| |u|
    std::vector<ld> Lt(n), W(n, 0), R(n), Mg(n); std::vector<int> rows(n, 0); for (int k = 0; k < n; ++k) { ld s = fabsl(x[k]); for (long a = Lp[k]; a < Lp[k + 1]; ++a) { if (Li[a] <= k || Li[a] >= n) fail("structure", fmt("column %d has row %ld", k, (long)Li[a])); s += fabsl((ld)Lx[a] * x[Li[a]]); rows[Li[a]]++; } Lt[k] = s * fabsl(D[k]); } for (int k = 0; k < n; ++k) { W[k] += Lt[k]; for (long a = Lp[k]; a < Lp[k + 1]; ++a) W[Li[a]] += fabsl(Lx[a]) * Lt[k]; }
    for (int i = 0; i < n; ++i) R[i] = -(ld)b[i], Mg[i] = fabsl(b[i]); each(M, [&](long i, long j, double v) { ld y = (ld)v * u[j]; R[i] += y; Mg[i] += fabsl(y); }); int big = 0; for (int k = 0; k < n; ++k) big = std::max(big, std::max(rows[k], (int)cnt[k])); double worst = 0;
    for (int k = 0; k < n; ++k) { int i = (int)P[k]; ld bound = EPS * (4.0L * big + 40) * (W[k] + Mg[i]); if (!(fabsl(R[i]) <= bound)) fail("solution", fmt("row %d of the system is off by %Lg, rounding bound %Lg", i, R[i], bound)); worst = std::max(worst, (double)(fabsl(R[i]) / bound)); } c.metric("solution error / bound", worst);
    // some diagonal entries change: the pattern-reusing factorisations against a fresh one
    for (int k = 0; k < n; ++k) pos[P[k]] = k;    std::vector<qp_int> Ltp(n + 1, -1), Lti(tot, -1), U(n, -2); Transpose_Row_Count(n, n, Li.data(), Lp.data(), Lti.data(), Ltp.data()); bool all = t.chance(1, 2); long ch = 0; for (int j = 0; j < n; ++j) if (all || r.below(50) == 0) for (long a = M.jc[j]; a < M.jc[j + 1]; ++a) if (M.ir[a] == j) { M.pr[a] *= ru(r, 1, 3); ++ch; for (int k = pos[j]; k >= 0 && U[k] != n; k = par[k]) U[k] = n; }
    Vec Lx2 = Lx, D2 = D; bool row = t.chance(1, 2); c.label(row ? "row-wise update" : "column-wise update"); const char *who = row ? "LDL_row_cache_numeric" : "LDL_cache_numeric"; auto *f = row ? LDL_row_cache_numeric : LDL_cache_numeric; for (auto &v : Y) v = 0; std::vector<qp_int> Li2 = Li; if (f(n, M.jc.data(), M.I(), M.X(), Ltp.data(), Lti.data(), Li2.data(), Lp.data(), Lx2.data(), D2.data(), Y.data(), use ? P.data() : 0, use ? Pi.data() : 0, U.data()) != n) fail("status", std::string(who) + " did not finish");
    LDL_numeric(n, M.jc.data(), M.I(), M.X(), Lp.data(), Par.data(), Lnz.data(), Li.data(), Lx.data(), D.data(), Y.data(), Pt.data(), Fl.data(), use ? P.data() : 0, use ? Pi.data() : 0); c.sub++;
    for (int k = 0; k < n; ++k) { if (!(std::fabs(D[k] - D2[k]) <= 1e-9 * (1 + std::fabs(D[k])))) fail("update", fmt("%s: pivot %d is %.17g, a fresh factorisation gives %.17g (%ld entries changed)", who, k, D2[k], D[k], ch)); for (long a = Lp[k]; a < Lp[k + 1]; ++a) if (Li2[a] != Li[a] || !(std::fabs(Lx[a] - Lx2[a]) <= 1e-9 * (1 + std::fabs(Lx[a])))) fail("update", fmt("%s: column %d of the factor differs from a fresh one by %g", who, k, Lx[a] - Lx2[a])); }
}
#endif
#if BIG == 14
static void kernels(Tape &t, Ctx &c)
{
    BigQP q; gen_big(t, q, c); pbt::Rng r(t.raw()); c.nontrivial = std::max(q.n, q.m) > 4000; Csc *Ms[] = {&q.G, &q.P, q.p ? &q.A : &q.G}; Csc &M = *Ms[t.below(3)]; smat S = view(M); auto vec = [&](long k) { Vec v(k); for (auto &x : v) x = ru(r, -2, 2); v.shrink_to_fit(); return v; };
    auto cmp = [&](const char *w, const Vec &g, const std::vector<ld> &v, const std::vector<ld> &a, const std::vector<int> &k) { for (size_t i = 0; i < g.size(); ++i) if (!(fabsl((ld)g[i] - v[i]) <= EPS * (k[i] + 4) * a[i])) fail(w, fmt("element %zu is %.17g, expected %.17Lg", i, g[i], v[i])); };
    { Vec x = vec(M.n), g(M.m, 0.5); SparseMatrixMultiply(&S, x.data(), g.data(), 1); Vec g2 = g; std::vector<ld> v(M.m, 0), a(M.m, 0); std::vector<int> k(M.m, 0); each(M, [&](long i, long j, double e) { ld u = (ld)e * x[j]; v[i] -= u; a[i] += fabsl(u); k[i]++; }); cmp("product", g, v, a, k); }
    { Vec x = vec(M.m), g(M.n, 0.5); SparseMatrixTransMultiply(&S, x.data(), g.data(), 1); std::vector<ld> v(M.n, 0), a(M.n, 0); std::vector<int> k(M.n, 0); each(M, [&](long i, long j, double e) { ld u = (ld)e * x[i]; v[j] -= u; a[j] += fabsl(u); k[j]++; }); cmp("transposed product", g, v, a, k); }
    auto trans = [&](Csc &A) { Csc T; T.m = A.n; T.n = A.m; T.jc.assign(A.m + 1, -1); T.ir.assign(A.ir.size(), -1); T.pr.assign(A.pr.size(), NAN); T.jc.shrink_to_fit(); smat a = view(A), b = view(T); SparseMatrixTranspose(&a, &b); return T; };
    auto key = [](const Csc &A, bool tr) { std::vector<std::pair<std::pair<long, long>, double>> k; each(A, [&](long i, long j, double v) { k.push_back({tr ? std::make_pair(i, j) : std::make_pair(j, i), v}); }); std::sort(k.begin(), k.end()); return k; };
    Csc At, Gt = trans(q.G); if (key(q.G, true) != key(Gt, false)) fail("transpose", "entries of G' differ"); if (q.p) { At = trans(q.A); if (key(q.A, true) != key(At, false)) fail("transpose", "entries of A' differ"); }
    { long K = q.n + q.p + q.m, nz = (long)(q.P.ir.size() + 2 * q.G.ir.size() + 2 * q.A.ir.size()) + q.m; Csc KK; KK.m = KK.n = K; KK.jc.assign(K + 1, -1); KK.ir.assign(nz, -1); KK.pr.assign(nz, NAN); KK.jc.shrink_to_fit(); smat k = view(KK), p = view(q.P), g = view(q.G), a, gt = view(Gt), at; if (q.p) { a = view(q.A); at = view(At); }
      formkktmatrix_full(&p, &g, q.p ? &a : 0, &gt, q.p ? &at : 0, &k); if (KK.jc[K] != nz) fail("kkt", fmt("%ld entries instead of %ld", (long)KK.jc[K], nz)); Vec s = vec(q.m), z = vec(q.m), dd = vec(q.m); for (auto &v : s) v = std::fabs(v) + 0.1; for (auto &v : z) v = std::fabs(v) + 0.1; bool upd = t.chance(1, 2); if (upd) updatekktmatrix(&k, s.data(), z.data(), dd.data(), dd.data(), 1, 1, q.m, q.n, q.p, 0);
      std::vector<std::pair<std::pair<long, long>, double>> w; each(q.P, [&](long i, long j, double v) { w.push_back({{j, i}, v}); }); each(q.A, [&](long i, long j, double v) { w.push_back({{j, q.n + i}, v}); w.push_back({{q.n + i, j}, v}); }); each(q.G, [&](long i, long j, double v) { w.push_back({{j, q.n + q.p + i}, v}); w.push_back({{q.n + q.p + i, j}, v}); }); for (long i = 0; i < q.m; ++i) w.push_back({{q.n + q.p + i, q.n + q.p + i}, upd ? -s[i] / z[i] : -1.0}); std::sort(w.begin(), w.end());
      auto got = key(KK, false); if (got.size() != w.size()) fail("kkt", "entry count"); for (size_t i = 0; i < w.size(); ++i) if (got[i].first != w[i].first || std::fabs(got[i].second - w[i].second) > 4 * EPS * std::fabs(w[i].second)) fail("kkt", fmt("entry (%ld,%ld) = %.17g, expected (%ld,%ld) = %.17g", got[i].first.second, got[i].first.first, got[i].second, w[i].first.second, w[i].first.first, w[i].second)); }
    { long k = std::max(q.n, q.m); Vec a = vec(k), b = vec(k), l(k, NAN), s(k), z(k); ld v = 0, m = 0; for (long i = 0; i < k; ++i) { s[i] = std::fabs(a[i]) + 0.01; z[i] = std::fabs(b[i]) + 0.01; v += (ld)a[i] * b[i]; m += fabsl((ld)a[i] * b[i]); } double g = innerproduct(a.data(), b.data(), k); if (!(fabsl(g - v) <= EPS * (k + 4) * m)) fail("inner product", fmt("%.17g instead of %.17Lg", g, v));
      formlambda(l.data(), s.data(), z.data(), k); for (long i = 0; i < k; ++i) if (!(std::fabs(l[i] - std::sqrt(s[i] * z[i])) <= 8 * EPS * l[i])) fail("scaling point", fmt("element %ld is %.17g, expected %.17g", i, l[i], std::sqrt(s[i] * z[i])));
      long at = (long)r.below(k), az = (long)r.below(k); for (auto &x : a) x = std::fabs(x); for (auto &x : b) x = std::fabs(x); a[at] = -3 * s[at]; b[az] = -2 * z[az]; double ap = -7, ad = -7; findsteplength(s.data(), a.data(), z.data(), b.data(), k, &ap, &ad); if (std::fabs(ap - 1 / 3.0) > 1e-12 || std::fabs(ad - 0.5) > 1e-12) fail("step length", fmt("%.17g and %.17g, expected 1/3 (entry %ld) and 1/2 (entry %ld)", ap, ad, at, az));
      Vec x = vec(k), x0 = x; updatevariables(x.data(), a.data(), 0.25, k); for (long i = 0; i < k; ++i) if (std::fabs(x[i] - (x0[i] + 0.25 * a[i])) > 4 * EPS * (std::fabs(x0[i]) + std::fabs(a[i]))) fail("update", fmt("element %ld", i)); }
}
#endif
void property(Tape &t, Ctx &c)
{
    vh_reset(); vh.track = BIG == 7;
#if BIG == 15
    ldl(t, c);
#elif BIG == 14
    kernels(t, c);
#elif BIG == 3
    BigQP q; gen_big(t, q, c); c.nontrivial = std::max(q.n, q.m) > 4000; // one row and its contradiction, far apart
    { std::vector<Trip> T; each(q.G, [&](long i, long j, double v) { T.push_back({i, j, v}); }); long i0 = t.pick({1, 1, 1}) == 0 ? 0 : (long)t.below(q.m), i1 = q.m; std::vector<Trip> add; double mx = 0; for (auto &e : T) if (e.i == i0) { add.push_back({i1, e.j, -e.v}); mx = std::max(mx, std::fabs(e.v)); } for (auto &e : add) T.push_back(e); q.m++; q.G = big_csc(q.m, q.n, T); q.h.push_back(-q.h[i0] - t.uni(0.05, 2)); q.h.shrink_to_fit(); c.note("row %ld contradicts row %ld", i1, i0); }
    BigInst I(q); long lim = t.range(3, 25); I.w->options->maxit = lim; Sol a = I.solve(); if (a.flag == 0) fail("infeasible called optimal", fmt("after %ld iterations", a.it)); if (a.flag != 1 && a.flag != 2 && a.flag != 3) fail("exit code", fmt("%ld", a.flag)); if (a.it > lim) fail("iteration limit", fmt("%ld iterations, limit %ld", a.it, lim));
#elif BIG == 4
    BigQP q; gen_big(t, q, c); c.nontrivial = std::max(q.n, q.m) > 4000; BigInst I(q), J(q); long k = t.range(1, 5), e = t.range(1, 6); I.w->options->maxit = k + e; Sol a = I.solve(); J.w->options->maxit = k; Sol b = J.solve(); if (b.flag == 2 && b.it != k) fail("iteration count", fmt("limit %ld, %ld iterations", k, b.it)); J.w->options->maxit = e; b = J.solve(); const char *d = diff(a, b); if (d) fail("continuation", fmt("%ld + %ld iterations in two calls differ in %s from one call", k, e, d)); if (a.it > k + e || (a.flag == 2) != (a.it == k + e)) if (!(a.flag == 0 && a.it <= k + e)) fail("exit code", fmt("code %ld after %ld of %ld iterations", a.flag, a.it, k + e));
#elif BIG == 5
    BigQP q; gen_big(t, q, c, true); c.nontrivial = q.m > 4000; int st = t.pick({2, 1, 1}); // 1 unsorted 2 repeated
    Vec Pr(q.n * q.n, 0), Gr(q.m * q.n, 0), Ar(q.p * q.n, 0), Pc = Pr, Gc = Gr, Ac = Ar; each(q.P, [&](long i, long j, double v) { Pr[i * q.n + j] = Pc[j * q.n + i] = v; }); each(q.G, [&](long i, long j, double v) { Gr[i * q.n + j] = Gc[j * q.m + i] = v; }); each(q.A, [&](long i, long j, double v) { Ar[i * q.n + j] = Ac[j * q.p + i] = v; });
    { pbt::Rng r(t.raw()); long zr = (long)t.range(0, 3); for (long a = 0; a < zr; ++a) { long i = (long)r.below(q.m), j = (long)r.below(q.n); Gr[i * q.n + j] = Gc[j * q.m + i] = 0; } std::vector<Trip> T; for (long j = 0; j < q.n; ++j) for (long i = 0; i < q.m; ++i) if (Gc[j * q.m + i] != 0) T.push_back({i, j, Gc[j * q.m + i]}); q.G = big_csc(q.m, q.n, T); }
    Csc G0 = q.G; if (st) { pbt::Rng r(t.raw()); Csc G; G.m = q.m; G.n = q.n; G.jc.push_back(0); for (long j = 0; j < q.n; ++j) { std::vector<std::pair<qp_int, double>> v; for (long k = q.G.jc[j]; k < q.G.jc[j + 1]; ++k) { if (st == 2 && r.below(8) == 0) { v.push_back({q.G.ir[k], q.G.pr[k] / 2}); v.push_back({q.G.ir[k], q.G.pr[k] / 2}); } else v.push_back({q.G.ir[k], q.G.pr[k]}); } if (st == 1) for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[r.below(k)]); for (auto &e : v) { G.ir.push_back(e.first); G.pr.push_back(e.second); } G.jc.push_back((qp_int)G.ir.size()); } q.G = G; }
    Sol s0; { BigInst I(q); s0 = I.solve(); }
    for (int o = 0; o < 2; ++o) { QP *w = QP_SETUP_dense(q.n, q.m, q.p, o ? Pc.data() : Pr.data(), q.p ? (o ? Ac.data() : Ar.data()) : 0, o ? Gc.data() : Gr.data(), q.c.data(), q.h.data(), q.p ? q.b.data() : 0, 0, o ? COLUMN_MAJOR_ORDERING : ROW_MAJOR_ORDERING); std::string bad; const char *wh = o ? "column-major" : "row-major";
        if (w->G->m != q.m || w->G->n != q.n || w->G->nnz != (qp_int)G0.ir.size()) bad = "dimensions of G"; else for (long j = 0; j < q.n && bad.empty(); ++j) { std::vector<std::pair<qp_int, double>> v; for (long k = w->G->jc[j]; k < w->G->jc[j + 1]; ++k) if (w->G->pr[k] != 0) v.push_back({w->G->ir[k], w->G->pr[k]}); std::sort(v.begin(), v.end()); size_t a = 0; for (long k = G0.jc[j]; k < G0.jc[j + 1] && bad.empty(); ++k, ++a) if (a >= v.size() || v[a].first != G0.ir[k] || v[a].second != G0.pr[k]) bad = fmt("entry %ld of column %ld of G", k - (long)G0.jc[j], j); if (bad.empty() && a != v.size()) bad = "extra entries"; }
        long f = QP_SOLVE(w); if (bad.empty() && f != s0.flag) bad = fmt("exit code %ld, sparse set-up gives %ld", f, s0.flag); if (bad.empty() && f == 0) for (long j = 0; j < q.n; ++j) if (std::fabs(w->x[j] - s0.x[j]) > 0.8) bad = fmt("x[%ld] = %g, sparse set-up gives %g", j, w->x[j], s0.x[j]); if (bad.empty() && !st && w->stats->IterationCount == s0.it) for (long j = 0; j < q.n; ++j) if (w->x[j] != s0.x[j]) bad = fmt("x[%ld] differs from sparse set-up", j); QP_CLEANUP_dense(w); if (!bad.empty()) fail("representation", std::string(wh) + ": " + bad); }
#elif BIG == 6
    BigQP q; gen_big(t, q, c, false, 0); c.nontrivial = std::max(q.n, q.m) > 4000; long K = q.n + q.m + q.p; std::vector<qp_int> pm; bool rev = t.chance(1, 2), rrev = t.chance(1, 2); // inequality rows, then variables, every equality row after its variables
    for (long i = 0; i < q.m; ++i) pm.push_back(q.n + q.p + (rrev ? q.m - 1 - i : i)); { std::vector<long> last(q.p, -1); std::vector<std::vector<long>> eq(q.n); auto at = [&](long j) { return rev ? q.n - 1 - j : j; }; each(q.A, [&](long i, long j, double) { last[i] = std::max(last[i], at(j)); }); for (long i = 0; i < q.p; ++i) eq[last[i]].push_back(i); for (long k = 0; k < q.n; ++k) { pm.push_back(at(k)); for (long i : eq[k]) pm.push_back(q.n + i); } }
    if ((long)pm.size() != K) fail("check", "permutation"); pm.shrink_to_fit(); std::vector<qp_int> pm0 = pm; Sol a, b; { BigInst I(q), J(q, &pm); if (I.w->stats->AMD_RESULT != 0 && I.w->stats->AMD_RESULT != 1) fail("status", fmt("%ld", (long)I.w->stats->AMD_RESULT)); if (J.w->stats->AMD_RESULT != -3) fail("status", "supplied permutation not reported"); a = I.solve(); b = J.solve(); } if (pm != pm0) fail("input-modified", "permutation");
    if (a.flag != 0 || b.flag != 0) fail("exit code", fmt("%ld with the built-in ordering, %ld with the supplied one", a.flag, b.flag)); near_planted(q, a, "built-in ordering"); near_planted(q, b, "supplied ordering");
#elif BIG == 7
    BigQP q; gen_big(t, q, c); c.nontrivial = std::max(q.n, q.m) > 4000; BigQP k = q; { BigInst I(q); I.w->options->maxit = t.range(0, 4); I.solve(); if (t.chance(1, 2)) I.solve(); } if (vh.live || vh.badfree) fail("leak", fmt("%ld blocks outstanding, %ld bad releases", vh.live, vh.badfree)); if (q.P.ir != k.P.ir || q.G.ir != k.G.ir || q.A.ir != k.A.ir || q.P.jc != k.P.jc || q.G.jc != k.G.jc || q.A.jc != k.A.jc || !same_bits(q.P.pr, k.P.pr) || !same_bits(q.G.pr, k.G.pr) || !same_bits(q.A.pr, k.A.pr) || !same_bits(q.c, k.c) || !same_bits(q.h, k.h) || !same_bits(q.b, k.b)) fail("input-modified", "problem data");
#elif BIG == 8
    BigQP q; gen_big(t, q, c); c.nontrivial = std::max(q.n, q.m) > 4000; long lim = t.range(1, 6); Sol a, b; vh.fill = 0; { BigInst I(q); I.w->options->maxit = lim; a = I.solve(); } vh.fill = t.chance(1, 2) ? 0xff : 256; vh.fill_seed = t.raw(); { BigInst J(q); J.w->options->maxit = lim; b = J.solve(); } const char *d = diff(a, b); if (d) fail("not deterministic", fmt("second run on other memory contents differs in %s", d));
#elif BIG == 9
    BigQP q; gen_big(t, q, c); c.nontrivial = std::max(q.n, q.m) > 4000; BigInst I(q); I.w->options->maxit = t.chance(1, 2) ? t.range(0, 6) : MAXIT; Sol a = I.solve(); Resid R = big_residuals(q, a.x.data(), a.y.data(), a.z.data(), a.s.data());
    auto chk = [&](const char *n, double got, ld want, ld e) { if (!(fabsl((ld)got - want) <= 1.01L * e + 1e-300L)) fail("reported figure", fmt("%s reported as %.17g, at the returned point %.17Lg (rounding bound %Lg)", n, got, want, e)); }; chk("objective", a.fval, R.f, R.ef); chk("stationarity residual", a.nrx, R.rx, R.ex); chk("equality residual", a.nry, R.ry, R.ey); chk("inequality residual", a.nrz, R.rz, R.ez); chk("complementarity", a.nmu, R.mu, R.emu);
#elif BIG == 24
    BigQP q; gen_big(t, q, c); c.nontrivial = std::max(q.n, q.m) > 4000; BigInst I(q); I.w->options->maxit = 1; int steps = (int)t.range(1, 6); Resid R0; Sol a = I.take(Sol()); auto inside = [&](const Sol &u) { for (long i = 0; i < q.m; ++i) if (!(u.s[i] > 0) || !(u.z[i] > 0)) fail("not interior", fmt("entry %ld: s = %g, z = %g", i, u.s[i], u.z[i])); }; inside(a); R0 = big_residuals(q, a.x.data(), a.y.data(), a.z.data(), a.s.data());
    for (int k = 0; k < steps; ++k) { Sol b = I.solve(); if (b.flag == 0 || b.it == a.it) break; inside(b); double ap = I.w->stats->alpha_p, ad = I.w->stats->alpha_d; if (!(ap > 0 && ap <= 1 && ad > 0 && ad <= 1)) fail("step length", fmt("%g and %g", ap, ad)); bool bs = false, bz = false; for (long i = 0; i < q.m; ++i) { if (b.s[i] < 0.01 * a.s[i] * (1 - 1e-9)) fail("one percent rule", fmt("s[%ld] from %g to %g", i, a.s[i], b.s[i])); if (b.z[i] < 0.01 * a.z[i] * (1 - 1e-9)) fail("one percent rule", fmt("z[%ld] from %g to %g", i, a.z[i], b.z[i])); bs |= b.s[i] <= 0.01 * a.s[i] * (1 + 1e-6); bz |= b.z[i] <= 0.01 * a.z[i] * (1 + 1e-6); }
        if (ap < 0.99 * (1 - 1e-12) && !bs) fail("short step", fmt("primal step %g, no slack at one percent", ap)); if (ad < 0.99 * (1 - 1e-12) && !bz) fail("short step", fmt("dual step %g, no multiplier at one percent", ad)); a = b; c.sub++; }
#else // 1, 2
    BigQP q; gen_big(t, q, c); c.nontrivial = std::max(q.n, q.m) > 4000; BigInst I(q); Sol a = I.solve(); c.metric("iterations", (double)a.it); if (a.flag == 0) certificate(q, a);
#if BIG == 2
    if (a.flag != 0 || a.it >= 50) fail("not solved", fmt("exit code %ld after %ld iterations", a.flag, a.it)); near_planted(q, a, "default ordering");
#endif
#endif
}
