#include "qp.hpp"
#include "hooks.h"
const char *property_rule() { return "one kernel per case on random matrices (0 to 40 rows and columns, empty rows and columns, explicit zeros, unsorted and repeated entries, values from denormal to 1e150) and vectors (length 0 and up), compared with dense long double algebra within a rounding bound, entries that must be copied compared exactly; heap arrays of exact size under AddressSanitizer; non-trivial when the matrix has at least two entries or the vector at least two elements"; }
typedef std::vector<qp_int> IV;
extern "C" qp_real norm(qp_real *, qp_int) __attribute__((weak)); // in no header: skipped should it become internal
// called by nothing in the library: skipped should they be taken out
extern "C" { void formkktmatrix_U(smat *, smat *, smat *, smat *) __attribute__((weak)); qp_int checksign(qp_real *, qp_real *, qp_real, qp_int) __attribute__((weak)); }
static double value(Tape &t) { switch (t.pick({60, 10, 8, 4})) { case 0: return t.val(); case 1: { double s = t.sgn(); return s * std::ldexp(1.0 + t.unit(), (int)t.range(-40, 40)); } case 2: return (double)t.range(-50, 50); default: { static const double v[] = {0.0, -0.0, 5e-324, 1e-310, 1e150, -1e150, 1e-150}; return v[t.below(7)]; } } }


// triplet view
static void gen_mat(Tape &t, Csc &M, int m, int n)
{
    M = Csc(); M.m = m; M.n = n; M.jc.push_back(0); int dens = t.pick({3, 2, 1}); bool dup = t.chance(1, 4), uns = t.chance(1, 3);
    for (int j = 0; j < n; ++j) {
        std::vector<qp_int> rows; if (m && !t.chance(1, 6)) { int k = dens == 0 ? (int)t.range(0, std::min(m, 3)) : dens == 1 ? (int)t.range(0, m) : m; if (dens == 2) for (int i = 0; i < m; ++i) rows.push_back(i); else for (int a = 0; a < k; ++a) rows.push_back((qp_int)t.below(m)); }
        if (!dup) { std::sort(rows.begin(), rows.end()); rows.erase(std::unique(rows.begin(), rows.end()), rows.end()); }
        if (!uns) std::sort(rows.begin(), rows.end()); else for (size_t k = rows.size(); k > 1; --k) std::swap(rows[k - 1], rows[k - 1 - t.below(k)]);
        for (auto r : rows) { M.ir.push_back(r); M.pr.push_back(value(t)); }
        M.jc.push_back((qp_int)M.ir.size());
    }
    M.ir.shrink_to_fit(); M.pr.shrink_to_fit();
}
static smat view(Csc &M) { smat s; s.m = M.m; s.n = M.n; s.nnz = (qp_int)M.ir.size(); s.jc = M.jc.data(); s.ir = M.I(); s.pr = M.X(); return s; }
static Vec vecv(Tape &t, int n) { Vec v(n); for (auto &x : v) x = value(t); v.shrink_to_fit(); return v; }
static Vec pos(Tape &t, int n) { Vec v(n); for (auto &x : v) x = t.chance(1, 4) ? std::pow(10., -t.uni(-6, 12)) : t.uni(0.05, 4); return v; }
static void near(const char *op, long i, double got, ld want, ld mag, ld k) { if (!std::isfinite((double)want) || !std::isfinite((double)mag)) return; ld tol = mag * EPS * k + 1e-322L * k; if (!(fabsl((ld)got - want) <= tol)) fail(op, fmt("element %ld is %.17g, expected %.17Lg (rounding bound %Lg)", i, got, want, tol)); }
static void show(Ctx &c, const char *nm, const Csc &M) { if (!c.want_desc) return; c.note("%s: %ld x %ld", nm, (long)M.m, (long)M.n); Vec a(M.jc.begin(), M.jc.end()), b(M.ir.begin(), M.ir.end()); c.vec("jc", a); c.vec("ir", b); c.vec("pr", M.pr); }
static bool sameb(double a, double b) { return !memcmp(&a, &b, 8); }
typedef std::vector<std::vector<double>> Cells; // entries per (column, row), sorted
static Cells cells(const smat *s, bool transposed) { long R = transposed ? s->n : s->m, C = transposed ? s->m : s->n; Cells c((size_t)R * C); for (long j = 0; j < s->n; ++j) for (long k = s->jc[j]; k < s->jc[j + 1]; ++k) { long i = s->ir[k]; if (i < 0 || i >= s->m) fail("structure", fmt("row index %ld outside 0..%ld", i, (long)s->m - 1)); c[transposed ? (size_t)i * R + j : (size_t)j * R + i].push_back(s->pr[k]); } for (auto &v : c) std::sort(v.begin(), v.end(), [](double a, double b) { return memcmp(&a, &b, 8) < 0; }); return c; }
static bool same_cells(const Cells &a, const Cells &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].size() != b[i].size()) return false; for (size_t k = 0; k < a[i].size(); ++k) if (!sameb(a[i][k], b[i][k])) return false; } return true; }
static void well_formed(const char *op, const smat *s, long m, long n, long nnz)
{
    if (s->m != m || s->n != n || s->nnz != nnz) fail(op, fmt("dimensions %ld x %ld with %ld entries, expected %ld x %ld with %ld", (long)s->m, (long)s->n, (long)s->nnz, m, n, nnz));
    if (s->jc[0] != 0 || s->jc[n] != nnz) fail(op, fmt("column pointers run from %ld to %ld, expected 0 to %ld", (long)s->jc[0], (long)s->jc[n], nnz));
    for (long j = 0; j < n; ++j) if (s->jc[j] > s->jc[j + 1]) fail(op, fmt("column pointers decrease at column %ld", j));
}
static int len(Tape &t) { return t.chance(1, 12) ? (int)t.dim(0, 60) : (int)t.dim(0, 12); }
void property(Tape &t, Ctx &c)
{
    int op = (int)t.below(15), m = len(t), n = len(t);
    if (t.chance(1, 16)) { if ((op >= 6 && op <= 12) || op == 14) m = (int)t.dim(0, t.chance(1, 20) ? 3000 : 300); else if (t.chance(1, 25)) { m = (int)t.dim(0, 300); n = (int)t.dim(0, 300); } else { m = (int)t.dim(0, 70); n = t.chance(1, 2) ? m : (int)t.dim(0, 70); } } static const char *names[] = {"product", "transposed product", "transpose", "dense to sparse", "KKT assembly", "scaling update", "step length", "complementarity ratio", "scaling point", "right-hand side", "inner product and update", "direction term", "sign check", "objective", "norm"};
    c.label(names[op]); c.note("%s, m=%d n=%d", names[op], m, n); const char *o = names[op];
    if (op <= 1) {
        Csc M; gen_mat(t, M, m, n); show(c, "A", M); Csc keep = M; smat s = view(M); bool tr = op == 1; int in = tr ? m : n, out = tr ? n : m; Vec x = vecv(t, in), y = vecv(t, out), x0 = x, y0 = y; bool start = t.chance(1, 2); qp_int st = start ? (t.chance(1, 3) ? (qp_int)t.range(1, 5) * (t.chance(1, 2) ? -1 : 1) : 1) : 0;
        c.vec("x", x); c.vec("y", y); c.note("start %ld", (long)st); c.nontrivial = M.ir.size() >= 2;
        if (tr) SparseMatrixTransMultiply(&s, x.data(), y.data(), st); else SparseMatrixMultiply(&s, x.data(), y.data(), st);
        std::vector<ld> w(out, 0), a(out, 0), cnt(out, 2); if (!start) for (int i = 0; i < out; ++i) w[i] = y0[i], a[i] = fabsl(w[i]);
        for (int j = 0; j < n; ++j) for (long k = M.jc[j]; k < M.jc[j + 1]; ++k) { int i = (int)M.ir[k]; ld p = (ld)M.pr[k] * x0[tr ? i : j]; w[tr ? j : i] -= p; a[tr ? j : i] += fabsl(p); cnt[tr ? j : i] += 1; }
        for (int i = 0; i < out; ++i) near(o, i, y[i], w[i], a[i], cnt[i]);
        if (!same_bits(x, x0) || M.jc != keep.jc || M.ir != keep.ir || !same_bits(M.pr, keep.pr)) fail("input-modified", o);
    } else if (op == 2) {
        Csc M; gen_mat(t, M, m, n); show(c, "A", M); smat s = view(M); c.nontrivial = M.ir.size() >= 2; Csc T; T.jc.assign(m + 1, -7); T.jc.shrink_to_fit(); T.ir.assign(M.ir.size(), -7); T.pr.assign(M.ir.size(), NAN); smat d; SparseMatrixSetup(n, m, (qp_int)M.ir.size(), T.jc.data(), T.I(), T.X(), &d); Csc keep = M;
        SparseMatrixTranspose(&s, &d); well_formed(o, &d, n, m, (long)M.ir.size());
        if (!same_cells(cells(&d, true), cells(&s, false))) fail(o, "the result does not hold the transposed entries");
        if (M.jc != keep.jc || M.ir != keep.ir || !same_bits(M.pr, keep.pr)) fail("input-modified", o);
        // the pattern transpose used for the factor
        IV Lti(M.ir.size(), -7), Ltp(m + 1, -7); Lti.reserve(1); Transpose_Row_Count(m, n, M.I(), M.jc.data(), Lti.data(), Ltp.data());
        for (int j = 0; j <= m; ++j) if (Ltp[j] != d.jc[j]) fail("pattern transpose", fmt("row pointer %d is %ld, expected %ld", j, (long)Ltp[j], (long)d.jc[j]));
        for (int j = 0; j < m; ++j) { IV a(Lti.begin() + Ltp[j], Lti.begin() + Ltp[j + 1]), b(d.ir + d.jc[j], d.ir + d.jc[j + 1]); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) fail("pattern transpose", fmt("row %d of the factor has wrong column indices", j)); }
    } else if (op == 3) {
        Vec D((size_t)m * n); for (auto &v : D) v = t.chance(1, 2) ? 0.0 : value(t); if (!D.empty() && t.chance(1, 8)) D[t.below(D.size())] = t.chance(1, 2) ? NAN : INFINITY; D.shrink_to_fit(); Vec D0 = D; c.vec("dense", D); bool row = t.chance(1, 2); c.note("row major %d", row); long nz = 0; for (double v : D) nz += v != 0; c.nontrivial = nz >= 2;
        smat s; memset(&s, 0x55, sizeof s); double one = 0; double *pd = D.empty() ? &one : D.data(); if (row) densetosparse_ROWMAJOR(m, n, pd, &s); else densetosparse(m, n, pd, &s);
        struct F { smat &s; ~F() { v_free(s.jc); v_free(s.ir); v_free(s.pr); } } f{s};
        well_formed(o, &s, m, n, nz); Cells g = cells(&s, false);
        for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { double v = row ? D0[(size_t)i * n + j] : D0[(size_t)j * m + i]; auto &e = g[(size_t)j * m + i]; if ((v != 0) != (e.size() == 1) || (e.size() && !sameb(e[0], v)) || e.size() > 1) fail(o, fmt("entry (%d,%d): held %zu times, given %.17g", i, j, e.size(), v)); }
        if (!same_bits(D, D0)) fail("input-modified", o);
    } else if (op == 4 || op == 5) {
        n = std::max(n, 1); m = std::max(m, 1); int p = t.chance(1, 2) ? (int)t.dim(1, 8) : 0; Csc P, G, A; gen_mat(t, P, n, n); gen_mat(t, G, m, n); gen_mat(t, A, p, n); show(c, "P", P); show(c, "G", G); if (p) show(c, "A", A);
        auto tr = [](Csc &M) { Csc T; T.m = M.n; T.n = M.m; T.jc.assign(M.m + 1, 0); T.ir.resize(M.ir.size()); T.pr.resize(M.ir.size()); smat s = view(M), d; SparseMatrixSetup(M.n, M.m, (qp_int)M.ir.size(), T.jc.data(), T.I(), T.X(), &d); SparseMatrixTranspose(&s, &d); return T; };
        Csc Gt = tr(G), At; if (p) At = tr(A); int N = n + p + m; size_t nz = P.ir.size() + 2 * (G.ir.size() + (p ? A.ir.size() : 0)) + m; c.nontrivial = nz >= 3;
        Csc K; K.m = K.n = N; K.jc.assign(N + 1, -7); K.jc.shrink_to_fit(); K.ir.assign(nz, -7); K.pr.assign(nz, NAN); smat k = view(K), sp = view(P), sg = view(G), sgt = view(Gt), sa, sat; k.nnz = (qp_int)nz; if (p) { sa = view(A); sat = view(At); }
        formkktmatrix_full(&sp, &sg, p ? &sa : 0, &sgt, p ? &sat : 0, &k);
        well_formed(o, &k, N, N, (long)nz);
        Cells want((size_t)N * N); auto put = [&](const Csc &M, int r0, int c0, bool T) { for (int j = 0; j < M.n; ++j) for (long a = M.jc[j]; a < M.jc[j + 1]; ++a) { int i = (int)M.ir[a]; size_t R = r0 + (T ? j : i), C = c0 + (T ? i : j); want[C * N + R].push_back(M.pr[a]); } };
        put(P, 0, 0, false); put(G, n + p, 0, false); put(G, 0, n + p, true); if (p) { put(A, n, 0, false); put(A, 0, n, true); }
        for (int i = 0; i < m; ++i) want[(size_t)(n + p + i) * N + n + p + i].push_back(-1.0); for (auto &v : want) std::sort(v.begin(), v.end(), [](double a, double b) { return memcmp(&a, &b, 8) < 0; });
        Cells got = cells(&k, false); for (size_t a = 0; a < want.size(); ++a) if (!same_cells({want[a]}, {got[a]})) fail(o, fmt("KKT entry (%ld,%ld): held %zu times (first %.17g), expected %zu (first %.17g)", (long)(a % N), (long)(a / N), got[a].size(), got[a].size() ? got[a][0] : 0.0, want[a].size(), want[a].size() ? want[a][0] : 0.0));
        if (!p && op != 5 && formkktmatrix_U) { // the upper triangle alone, without equality rows
            size_t nu = G.ir.size() + m; for (int j = 0; j < n; ++j) for (long a = P.jc[j]; a < P.jc[j + 1]; ++a) nu += P.ir[a] <= j;
            Csc U; U.m = U.n = N; U.jc.assign(N + 1, -7); U.jc.shrink_to_fit(); U.ir.assign(nu, -7); U.pr.assign(nu, NAN); U.ir.shrink_to_fit(); U.pr.shrink_to_fit(); smat u = view(U); u.nnz = (qp_int)nu; formkktmatrix_U(&sp, &sg, &sgt, &u); c.sub++; c.label("upper triangle");
            well_formed("upper triangle of the KKT matrix", &u, N, N, (long)nu); Cells gu = cells(&u, false); for (size_t a = 0; a < want.size(); ++a) { bool up = a % N <= a / N; if (up ? !same_cells({want[a]}, {gu[a]}) : !gu[a].empty()) fail("upper triangle of the KKT matrix", fmt("entry (%ld,%ld) held %zu times, expected %zu", (long)(a % N), (long)(a / N), gu[a].size(), up ? want[a].size() : 0)); }
        }
        if (op == 5) for (int rep = 0; rep < 2; ++rep) {
            Vec s = pos(t, m), z = pos(t, m), ds = vecv(t, m), dz = vecv(t, m); c.vec("s", s); c.vec("z", z);
            updatekktmatrix(&k, s.data(), z.data(), ds.data(), dz.data(), t.uni(0, 1), t.uni(0, 1), m, n, p, 0); c.sub++;
            Cells g2 = cells(&k, false);
            for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) { size_t a = (size_t)j * N + i; if (i == j && i >= n + p) { if (g2[a].size() != 1) fail(o, fmt("diagonal entry %d held %zu times", i, g2[a].size())); near(o, i, g2[a][0], -(ld)s[i - n - p] / z[i - n - p], fabsl((ld)s[i - n - p] / z[i - n - p]), 4); } else if (!same_cells({g2[a]}, {want[a]})) fail(o, fmt("entry (%d,%d) changed", i, j)); }
        }
    } else if (op == 6) {
        Vec s = pos(t, m), z = pos(t, m), ds(m), dz(m); int mode = t.pick({4, 1, 1, 1}); for (Vec *v : {&ds, &dz}) for (auto &x : *v) { x = mode == 1 ? std::fabs(t.val()) : t.chance(1, 6) ? (t.chance(1, 2) ? 0.0 : -0.0) : t.val() * (t.chance(1, 4) ? std::pow(10., t.uni(-6, 6)) : 1); if (mode == 2) x = -std::fabs(x); }
        if (mode == 3) for (auto &x : dz) x = std::fabs(x); if (m && t.chance(1, 10)) s[t.below(m)] = 0;
        c.vec("s", s); c.vec("ds", ds); c.vec("z", z); c.vec("dz", dz); c.nontrivial = m >= 2; double ap = NAN, ad = NAN; Vec k1 = s, k2 = ds, k3 = z, k4 = dz; findsteplength(s.data(), ds.data(), z.data(), dz.data(), m, &ap, &ad);
        if (!same_bits(s, k1) || !same_bits(ds, k2) || !same_bits(z, k3) || !same_bits(dz, k4)) fail("input-modified", o);
        auto chk = [&](const char *w, const Vec &v, const Vec &d, double a) { ld b = INFINITY; for (int i = 0; i < m; ++i) if (d[i] < 0) b = std::min(b, -(ld)v[i] / d[i]); if (b == INFINITY) { if (a != 1) fail(o, fmt("%s step %.17g although nothing blocks", w, a)); return; } if (b >= 0.99e10L) { if (!(a == 1 || a >= 0.98e10)) fail(o, fmt("%s step %.17g, boundary at %Lg", w, a, b)); return; } if (!(fabsl(a - b) <= 4 * EPS * b)) fail(o, fmt("%s step %.17g, boundary at %.17Lg", w, a, b)); };
        chk("primal", s, ds, ap); chk("dual", z, dz, ad);
    } else if (op == 7) {
        m = std::max(m, 1); Vec s = pos(t, m), z = pos(t, m), ds = vecv(t, m), dz = vecv(t, m); double ap = t.pick({1, 3}) ? t.uni(0, 2) : 1, ad = t.uni(0, 2); c.vec("s", s); c.vec("ds", ds); c.vec("z", z); c.vec("dz", dz); c.note("steps %.17g %.17g", ap, ad); c.nontrivial = m >= 2;
        double r = formrho(s.data(), ds.data(), z.data(), dz.data(), ap, ad, m); ld a = 0, e = 0, b = 0; for (int i = 0; i < m; ++i) { ld u = s[i] + (ld)ap * ds[i], v = z[i] + (ld)ad * dz[i]; a += u * v; e += (fabsl(s[i]) + fabsl((ld)ap * ds[i])) * (fabsl(z[i]) + fabsl((ld)ad * dz[i])); b += (ld)s[i] * z[i]; }
        near(o, 0, r, a / b, e / b, 2 * m + 8);
    } else if (op == 8) {
        Vec s = pos(t, m), z = pos(t, m), l(m, NAN); c.vec("s", s); c.vec("z", z); c.nontrivial = m >= 2; formlambda(l.data(), s.data(), z.data(), m); for (int i = 0; i < m; ++i) near(o, i, l[i], sqrtl((ld)s[i] * z[i]), sqrtl((ld)s[i] * z[i]), 4);
    } else if (op == 9) {
        int p = len(t); Vec rx = vecv(t, n), ry = vecv(t, p), rz = vecv(t, m), ds = vecv(t, m), z = pos(t, m), b(n + p + m, NAN); b.shrink_to_fit(); c.nontrivial = n + p + m >= 2; c.vec("rx", rx); c.vec("ry", ry); c.vec("rz", rz); c.vec("ds", ds); c.vec("z", z);
        Vec k1 = rx, k2 = ry, k3 = rz, k4 = ds, k5 = z; updatekktmatrix_b(b.data(), rx.data(), ry.data(), rz.data(), ds.data(), z.data(), n, m, p);
        if (!same_bits(rx, k1) || !same_bits(ry, k2) || !same_bits(rz, k3) || !same_bits(ds, k4) || !same_bits(z, k5)) fail("input-modified", o);
        for (int i = 0; i < n; ++i) if (!sameb(b[i], rx[i])) fail(o, fmt("element %d differs from rx", i)); for (int i = 0; i < p; ++i) if (!sameb(b[n + i], ry[i])) fail(o, fmt("element %d differs from ry(%d)", n + i, i));
        for (int i = 0; i < m; ++i) { ld q = (ld)ds[i] / z[i]; near(o, n + p + i, b[n + p + i], rz[i] - q, fabsl(rz[i]) + fabsl(q), 3); }
    } else if (op == 10) {
        Vec x = vecv(t, m), y = vecv(t, m); c.vec("x", x); c.vec("y", y); c.nontrivial = m >= 2; ld a = 0, e = 0; for (int i = 0; i < m; ++i) { ld q = (ld)x[i] * y[i]; a += q; e += fabsl(q); } near(o, 0, innerproduct(x.data(), y.data(), m), a, e, m + 2);
        double al = t.pick({1, 2}) ? t.uni(-1, 1) : -1; Vec x0 = x, y0 = y; updatevariables(x.data(), y.data(), al, m); if (!same_bits(y, y0)) fail("input-modified", o); for (int i = 0; i < m; ++i) near("vector update", i, x[i], x0[i] + (ld)al * y0[i], fabsl(x0[i]) + fabsl((ld)al * y0[i]), 3);
    } else if (op == 11) {
        Vec l = pos(t, m), ds = vecv(t, m), dz = vecv(t, m), r(m, NAN), d0 = ds, z0 = dz, l0 = l; double sg = t.uni(0, 1), mu = t.uni(0, 3); int sel = (int)t.below(3); qp_int code[] = {QP_PURE_NEWTON_STEP, QP_CENTERING_CORRECTOR_STEP, QP_CENTERING_STEP}; c.vec("lambda", l); c.vec("ds", ds); c.vec("dz", dz); c.note("sigma %.17g mu %.17g selector %d", sg, mu, sel); c.nontrivial = m >= 2;
        form_ds(r.data(), l.data(), ds.data(), dz.data(), sg, mu, m, code[sel]); if (!same_bits(ds, d0) || !same_bits(dz, z0) || !same_bits(l, l0)) fail("input-modified", o);
        for (int i = 0; i < m; ++i) { ld a = -(ld)l[i] * l[i], e = -a; if (sel == 1) { ld q = (ld)ds[i] * dz[i]; a -= q; e += fabsl(q); } if (sel) { a += (ld)sg * mu; e += (ld)sg * mu; } near(o, i, r[i], a, e, 5); }
    } else if (op == 12) {
        Vec x = vecv(t, m), d = vecv(t, m); double al = t.uni(0, 1); if (t.chance(1, 2)) for (int i = 0; i < m; ++i) { x[i] = std::fabs(x[i]); d[i] = t.chance(1, 10) ? -x[i] * 4 : std::fabs(d[i]); }
        if (t.chance(1, 2)) { al = std::ldexp(1.0, -(int)t.range(0, 4)); for (int i = 0; i < m; ++i) if (t.chance(1, 4)) { x[i] = std::fabs(x[i]); d[i] = t.chance(3, 4) ? -x[i] / al : t.chance(1, 2) ? -std::nextafter(x[i], 1e300) / al : -std::nextafter(x[i], 0) / al; } } // exactly at the boundary or one unit in the last place beside it
        c.vec("x", x); c.vec("d", d); c.note("alpha %.17g", al); c.nontrivial = m >= 2; bool neg = false, close = false; for (int i = 0; i < m; ++i) { ld v = x[i] + (ld)al * d[i]; if ((ld)(al * d[i]) == (ld)al * d[i] && std::isnormal(al * d[i])) { neg |= x[i] < -(al * d[i]); continue; } if (fabsl(v) <= 4 * EPS * (fabsl(x[i]) + fabsl(al * d[i])) + 1e-320L) close = true; else if (v < 0) neg = true; }
        if (!checksign) return; qp_int r = checksign(x.data(), d.data(), al, m); if (!(close && !neg) && (r != 0) != neg) fail(o, fmt("answer %ld although %s entry becomes negative", (long)r, neg ? "an" : "no"));
    } else if (op == 14) {
        Vec x = vecv(t, m); c.vec("x", x); c.nontrivial = m >= 2; Vec x0 = x; if (!norm) { c.label("norm not reachable"); return; } double r = norm(x.data(), m); ld a = 0; for (double v : x0) a += (ld)v * v; if (!same_bits(x, x0)) fail("input-modified", o);
        if (a < 1e290L && a > 1e-290L) near(o, 0, r, sqrtl(a), sqrtl(a), m + 4); else if (a == 0 && r != 0) fail(o, fmt("norm %g of a zero vector of length %d", r, m));
    } else {
        n = std::max(n, 1); Csc P; gen_mat(t, P, n, n); show(c, "P", P); Vec x = vecv(t, n), q = vecv(t, n), tmp(n, NAN); c.vec("x", x); c.vec("c", q); c.nontrivial = n >= 2; smat s = view(P); Vec x0 = x; double f = obj_value(&s, q.data(), x.data(), tmp.data()); ld a = 0, e = 0, under = 0; for (int j = 0; j < n; ++j) { for (long k = P.jc[j]; k < P.jc[j + 1]; ++k) { ld v = 0.5L * P.pr[k] * x[j] * x[P.ir[k]]; a += v; e += fabsl(v); } a += (ld)q[j] * x[j]; e += fabsl((ld)q[j] * x[j]); } for (double v : x) under = std::max(under, fabsl(v)); under *= 1e-322L * (n + 2) * (P.ir.size() + 2) /* products of P and x may be denormal */; if (!same_bits(x, x0)) fail("input-modified", o); if (e < 1e290L) near(o, 0, f, a, e + under / EPS, 2 * n + P.ir.size() + 8);
    }
}
