#include "qp.hpp"
const char *property_rule() { return "one problem given through compressed columns (plain or with explicit zeros, unsorted rows, repeated entries), row-major and column-major arrays, with present, absent and partially absent equality data; half of the problems hold arbitrary values including denormal, huge, NaN and infinite ones, half have a planted optimum and are solved; non-trivial when some matrix has a zero and a nonzero entry"; }
static bool eqv(double a, double b) { return (a != a && b != b) || a == b; }
static void held(const char *who, const char *name, const smat *M, int rows, int cols, const Vec &D, bool exact_nnz, bool transposed)
{
    if (!M) fail("missing", fmt("%s holds no %s", who, name));
    if (M->m != rows || M->n != cols) fail("dimensions", fmt("%s holds %s with dimensions %ld x %ld, given %d x %d", who, name, (long)M->m, (long)M->n, rows, cols));
    Vec E((size_t)rows * cols, 0); std::vector<int> cnt((size_t)rows * cols, 0);
    if (M->jc[0] != 0 || M->jc[cols] != M->nnz) fail("structure", fmt("%s: column pointers of %s run from %ld to %ld, nnz %ld", who, name, (long)M->jc[0], (long)M->jc[cols], (long)M->nnz));
    for (int j = 0; j < cols; ++j) { if (M->jc[j] > M->jc[j + 1]) fail("structure", fmt("%s: column pointers of %s decrease", who, name)); for (long k = M->jc[j]; k < M->jc[j + 1]; ++k) { long i = M->ir[k]; if (i < 0 || i >= rows) fail("structure", fmt("%s: row index %ld of %s out of range", who, i, name)); size_t a = (size_t)j * rows + i; E[a] = cnt[a]++ ? E[a] + M->pr[k] : M->pr[k]; } }
    long nz = 0;
    for (int j = 0; j < cols; ++j) for (int i = 0; i < rows; ++i) {
        double d = transposed ? D[(size_t)i * cols + j] : D[(size_t)j * rows + i], e = E[(size_t)j * rows + i]; nz += d != 0;
        if (!eqv(d, e)) fail("value", fmt("%s: %s(%d,%d) is %.17g, given %.17g", who, name, i, j, e, d));
        if (exact_nnz && cnt[(size_t)j * rows + i] > 1) fail("duplicate", fmt("%s: %s(%d,%d) held %d times", who, name, i, j, cnt[(size_t)j * rows + i]));
    }
    if (exact_nnz && nz != M->nnz) fail("nnz", fmt("%s: %s holds %ld entries, given %ld nonzeros", who, name, (long)M->nnz, nz));
}
static void check_held(const Inst &I, const QPD &q, const char *who, bool exact, bool eq)
{
    const QP *p = I.q; if (p->n != q.n || p->m != q.m) fail("dimensions", fmt("%s: n %ld m %ld", who, (long)p->n, (long)p->m));
    if (p->p != (eq ? q.p : 0)) fail("dimensions", fmt("%s: p is %ld, expected %d", who, (long)p->p, eq ? q.p : 0));
    held(who, "P", p->P, q.n, q.n, q.P, exact, false); held(who, "G", p->G, q.m, q.n, q.G, exact, false); held(who, "G'", p->Gt, q.n, q.m, q.G, exact, true);
    if (eq) { held(who, "A", p->A, q.p, q.n, q.A, exact, false); held(who, "A'", p->At, q.n, q.p, q.A, exact, true); for (int i = 0; i < q.p; ++i) if (!eqv(p->b[i], q.b[i])) fail("value", fmt("%s: b(%d)", who, i)); }
    for (int i = 0; i < q.n; ++i) if (!eqv(p->c[i], q.c[i])) fail("value", fmt("%s: c(%d)", who, i));
    for (int i = 0; i < q.m; ++i) if (!eqv(p->h[i], q.h[i])) fail("value", fmt("%s: h(%d)", who, i));
}
static bool same_layout(const smat *a, const smat *b) { if (!a || !b) return a == b; return a->nnz == b->nnz && !memcmp(a->jc, b->jc, (a->n + 1) * sizeof(qp_int)) && !memcmp(a->ir, b->ir, a->nnz * sizeof(qp_int)) && !memcmp(a->pr, b->pr, a->nnz * sizeof(double)); }
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; bool wildcase = t.chance(1, 2);
    if (wildcase) { int big = t.chance(1, 12); gen_wild(t, q, big ? 40 : 12, big ? 60 : 16, true);
        if (t.chance(1, 4)) { static const double sp[] = {5e-324, -5e-324, 2.2250738585072009e-308, 1e-320, 1e308, -0.0, 1e-200}; int k = (int)t.range(1, 6); Vec *L[] = {&q.P, &q.G, &q.A}; for (int a = 0; a < k; ++a) { Vec &v = *L[t.below(3)]; if (v.empty()) continue; size_t i = t.below(v.size()); v[i] = sp[t.below(7)]; if (&v == &q.P) q.P[(i % q.n) * q.n + i / q.n] = v[i]; } c.label("extreme magnitudes"); } }
    else { GenCfg g = size_cfg(t); gen_planted(t, q, w, g); }
    if (wildcase && t.chance(1, 20)) { for (auto &v : q.P) v = 0; c.label("empty P"); }
    if (wildcase && t.chance(1, 20)) { for (auto &v : q.G) v = 0; c.label("empty G"); }
    if (wildcase && q.p && t.chance(1, 20)) { for (auto &v : q.A) v = 0; c.label("empty A"); }
    if (wildcase && t.chance(1, 10)) { for (auto &v : q.P) if (t.chance(1, 3)) v = t.chance(1, 2) ? 0 : t.val(); c.label("unsymmetric P"); } // the arrays must be read in the order stated also where it matters only for what is held
    describe(c, q);
    auto mixed = [](const Vec &v) { bool z = false, nz = false; for (double x : v) (x != 0 ? nz : z) = true; return z && nz; };
    c.nontrivial = mixed(q.P) || mixed(q.G) || mixed(q.A);
    int style = t.chance(1, 2) ? (int)t.range(1, 7) : 0;
    if (style & ST_DUP) for (Vec *v : {&q.P, &q.G, &q.A}) for (double &x : *v) if (x != 0 && std::fabs(x) < 1e-290) style &= ~ST_DUP; // halving must be exact
    c.note("sparse style %d", style); if (style) c.label("irregular compressed columns");
    Inst S, R, C; S.prepare(q, IF_SPARSE, nullptr, style, &t); R.prepare(q, IF_ROW); C.prepare(q, IF_COL);
    int missing = q.p ? t.pick({12, 1, 1, 1, 1, 1}) : t.pick({2, 0, 0, 0, 0, 0, 1}); // which equality argument is left out; 6: supplied with a zero count
    bool eq = q.p && !missing; if (missing) c.label(missing == 6 ? "equality data with zero count" : "equality argument left out");
    c.note("equality arguments: variant %d", missing);
    qp_int pj[64] = {0}, pi[4] = {0}; double pv[4] = {1, 1, 1, 1}, pb[4] = {1, 1, 1, 1};
    std::vector<qp_int> zj(q.n + 1, 0); QPD e = q; if (!eq) { e.p = 0; e.A.clear(); e.b.clear(); }
    {
        qp_int *Aj = missing == 1 ? 0 : S.A.jc.data(), *Ai = missing == 2 ? 0 : S.A.I(); double *Ax = missing == 3 || missing == 5 ? 0 : S.A.X(), *b = missing == 4 || missing == 5 ? 0 : S.b.data();
        if (!q.p) { bool give = missing == 6; Aj = give ? zj.data() : 0; Ai = give ? pi : 0; Ax = give ? pv : 0; b = give ? pb : 0; }
        S.q = QP_SETUP(q.n, q.m, q.p, S.P.jc.data(), S.P.I(), S.P.X(), Aj, Ai, Ax, S.G.jc.data(), S.G.I(), S.G.X(), S.c.data(), S.h.data(), b, 0.0, 0);
        for (Inst *I : {&R, &C}) {
            double *A = missing == 1 || missing == 2 || missing == 3 || missing == 5 ? 0 : I->Ad.data(), *bb = missing == 4 || missing == 5 ? 0 : I->b.data(); if (!q.p) { A = missing == 6 ? pv : 0; bb = missing == 6 ? pb : 0; }
            I->q = QP_SETUP_dense(q.n, q.m, q.p, I->Pd.data(), A, I->Gd.data(), I->c.data(), I->h.data(), bb, 0, I == &R ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
        }
        S.d = R.d = C.d = e;
    }
    (void)pj;
    check_held(S, q, "compressed columns", false, eq); check_held(R, q, "row-major set-up", true, eq); check_held(C, q, "column-major set-up", true, eq);
    if (wildcase) { for (Inst *I : {&S, &R, &C}) I->q->options->maxit = 6; }
    bool lay[2]; Inst *X[3] = {&S, &R, &C};
    for (int k = 0; k < 2; ++k) lay[k] = same_layout(X[k]->q->P, C.q->P) && same_layout(X[k]->q->G, C.q->G) && same_layout(X[k]->q->A, C.q->A);
    if (!wildcase && eq == (q.p > 0)) {
        // all three must satisfy the planted oracle
        Sol s[3]; for (int k = 0; k < 3; ++k) s[k] = X[k]->solve();
        auto cmp = [&](const Sol &a, const Sol &b, const char *who) { if (a.flag != b.flag || a.it != b.it || !same_bits(a.x, b.x) || !same_bits(a.y, b.y) || !same_bits(a.z, b.z) || !same_bits(a.s, b.s)) fail("different-result", fmt("%s holds the same matrices as the column-major set-up but gives exit %ld after %ld iterations instead of %ld after %ld, or a different point", who, a.flag, a.it, b.flag, b.it)); };
        if (lay[0]) cmp(s[0], s[2], "compressed columns"); else c.label("different layout, compared by value");
        if (lay[1]) cmp(s[1], s[2], "row-major set-up");
        bool first = true; static const char *nm[] = {"compressed columns", "row-major set-up", "column-major set-up"};
        with_siblings(t, c, q, w, [&](const QPD &Q, const Planted &W) {
            bool own = first; first = false; // siblings are solved anew
            for (int k = 0; k < 3; ++k) { if (own) check_solved(c, Q, W, s[k], 1e-6, 1e-6, nm[k]); else { Inst I; I.open(Q, k, nullptr, k ? 0 : style, &t); check_solved(c, Q, W, I.solve(), 1e-6, 1e-6, nm[k]); } }
        });
        c.label("solved");
    } else {
        Sol s[3]; for (int k = 0; k < 3; ++k) s[k] = X[k]->solve();
        for (int k = 0; k < 2; ++k) if (lay[k] && (s[k].flag != s[2].flag || s[k].it != s[2].it || !same_bits(s[k].x, s[2].x) || !same_bits(s[k].z, s[2].z))) fail("different-result", fmt("interface %d holds the same matrices as the column-major set-up but behaves differently (exit %ld after %ld, against %ld after %ld)", k, s[k].flag, s[k].it, s[2].flag, s[2].it));
        if (missing && q.p) { Inst N; N.open(e, IF_COL); if (wildcase) N.q->options->maxit = 6; Sol a = N.solve(); if (a.flag != s[2].flag || a.it != s[2].it || !same_bits(a.x, s[2].x) || !same_bits(a.z, s[2].z)) fail("equalities-not-ignored", "leaving out an equality argument differs from the problem without equalities"); }
    }
}
