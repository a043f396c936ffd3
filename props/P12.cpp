#include "qp.hpp"
const char *property_rule() { return "a problem with a planted optimum and a random chain of 1-4 equivalence transformations (reorder variables or rows, scale rows, flip or translate variables, scale the objective, add duplicated or redundant rows, recombine equalities, append an unused bounded variable); both problems go through the optimality oracle and their optimal values (and minimisers, for positive definite P) are compared; non-trivial when the chain changes the problem data and an inequality is active or equalities are present"; }
static double EV(const char *k, double d) { return getenv(k) ? atof(getenv(k)) : d; }
static const double FG = EV("FG", 2), FS = EV("FS", 5), FF = EV("FF", 3); // reach of the far transformations, powers of ten
enum { PERMX, PERMG, SCALEG, FLIP, SHIFT, SCALEF, DUP, REDUND, RECOMB, EXTRA, PERMA, NK };
static const char *names[] = {"reorder variables", "reorder inequalities", "scale inequalities", "flip variables", "translate", "scale objective", "duplicate inequality", "redundant inequality", "recombine equalities", "append variable", "reorder equalities"};
struct Map { bool eqv = false; std::vector<int> pos; Vec sg, sh; double f = 1; ld off = 0; }; // x'[pos[j]] = sg[j] x[j] - sh[j]; objective' = f (objective - off)
static void addrows(QPD &q, int k) { Vec N((size_t)(q.m + k) * q.n, 0); for (int j = 0; j < q.n; ++j) for (int i = 0; i < q.m; ++i) N[(size_t)j * (q.m + k) + i] = q.Ge(i, j); q.G = N; q.m += k; q.h.resize(q.m, 0); }
static void transform(QPD &q, Planted &w, Map &M, int kind, Tape &t, bool far)
{
    int n = q.n, m = q.m, p = q.p;
    auto perm = [&](int k) { std::vector<int> v(k); for (int i = 0; i < k; ++i) v[i] = i; for (int i = k; i > 1; --i) std::swap(v[i - 1], v[t.below(i)]); return v; };
    switch (kind) {
    case PERMX: { auto v = perm(n); QPD r = q; Planted u = w; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) r.Pe(v[i], v[j]) = q.Pe(i, j); for (int k = 0; k < m; ++k) r.Ge(k, v[i]) = q.Ge(k, i); for (int k = 0; k < p; ++k) r.Ae(k, v[i]) = q.Ae(k, i); u.x[v[i]] = w.x[i]; } q = r; w = u; for (auto &a : M.pos) if (a < n) a = v[a]; break; }
    case PERMG: { auto v = perm(m); QPD r = q; Planted u = w; for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) r.Ge(v[i], j) = q.Ge(i, j); u.s[v[i]] = w.s[i]; u.z[v[i]] = w.z[i]; } q = r; w = u; break; }
    case PERMA: { auto v = perm(p); QPD r = q; Planted u = w; for (int i = 0; i < p; ++i) { for (int j = 0; j < n; ++j) r.Ae(v[i], j) = q.Ae(i, j); u.y[v[i]] = w.y[i]; } q = r; w = u; break; }
    case SCALEG: for (int i = 0; i < m; ++i) if (t.chance(1, 2)) { double f = far ? std::pow(10., t.uni(-FG, FG)) : t.chance(1, 2) ? std::ldexp(1.0, (int)t.range(-2, 2)) : t.uni(0.3, 3); for (int j = 0; j < n; ++j) q.Ge(i, j) *= f; w.s[i] *= f; w.z[i] /= f; } break;
    case FLIP: for (int k = 0; k < n; ++k) if (t.chance(1, 2)) { for (int j = 0; j < n; ++j) { q.Pe(k, j) = -q.Pe(k, j); q.Pe(j, k) = -q.Pe(j, k); } for (int i = 0; i < m; ++i) q.Ge(i, k) = -q.Ge(i, k); for (int i = 0; i < p; ++i) q.Ae(i, k) = -q.Ae(i, k); w.x[k] = -w.x[k]; for (size_t a = 0; a < M.pos.size(); ++a) if (M.pos[a] == k) { M.sg[a] = -M.sg[a]; M.sh[a] = -M.sh[a]; } } break;
    case SHIFT: { double mag = far ? std::pow(10., t.uni(0, FS)) : 1; for (int k = 0; k < n; ++k) { double d = t.uni(-1, 1); if (far) d *= mag; w.x[k] -= d; for (size_t a = 0; a < M.pos.size(); ++a) if (M.pos[a] == k) M.sh[a] += d; } break; }
    case SCALEF: { double f = far ? std::pow(10., t.uni(-1, 1) * (M.eqv ? 6 : FF)) : t.chance(1, 2) ? std::ldexp(1.0, (int)t.range(-1, 2)) : t.uni(0.4, 4); for (auto &v : q.P) v *= f; for (auto &v : w.y) v *= f; for (auto &v : w.z) v *= f; M.f *= f; break; }
    case DUP: { int k = (int)t.range(1, 2); for (int a = 0; a < k; ++a) { int i = (int)t.below(q.m); addrows(q, 1); for (int j = 0; j < n; ++j) q.Ge(q.m - 1, j) = q.Ge(i, j); w.s.push_back(w.s[i]); double z = t.chance(1, 2) ? 0 : w.z[i] / 2; w.z.push_back(z); w.z[i] -= z; } break; }
    case REDUND: { addrows(q, 1); int r = q.m - 1; double s = t.uni(0.05, 2); int k = (int)t.range(1, std::min(3, r)); for (int a = 0; a < k; ++a) { int i = (int)t.below(r); double f = t.uni(0.2, 1); for (int j = 0; j < n; ++j) q.Ge(r, j) += f * q.Ge(i, j); s += f * w.s[i]; } w.s.push_back(s); w.z.push_back(0); break; }
    case RECOMB: { // T unit lower triangular, entries up to 1/2, some rows negated: y' solves T'y' = y
        Vec T((size_t)p * p, 0); for (int i = 0; i < p; ++i) { T[i * p + i] = 1; for (int j = 0; j < i; ++j) if (t.chance(1, 3)) T[i * p + j] = t.uni(-0.5, 0.5); } QPD r = q; for (int i = 0; i < p; ++i) for (int j = 0; j < n; ++j) { double a = 0; for (int k = 0; k <= i; ++k) a += T[i * p + k] * q.Ae(k, j); r.Ae(i, j) = a; }
        Vec y = w.y; for (int i = p - 1; i >= 0; --i) for (int k = i + 1; k < p; ++k) y[i] -= T[k * p + i] * y[k]; for (int i = 0; i < p; ++i) if (t.chance(1, 3)) { for (int j = 0; j < n; ++j) r.Ae(i, j) = -r.Ae(i, j); y[i] = -y[i]; } q = r; w.y = y; break; }
    case EXTRA: { QPD r; r.alloc(n + 1, m + 2, p); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) r.Pe(i, j) = q.Pe(i, j); for (int k = 0; k < m; ++k) r.Ge(k, i) = q.Ge(k, i); for (int k = 0; k < p; ++k) r.Ae(k, i) = q.Ae(k, i); } double pv = w.pd ? t.uni(0.3, 2) : t.chance(1, 2) ? 0.0 : 1.0; r.Pe(n, n) = pv; r.Ge(m, n) = 1; r.Ge(m + 1, n) = -1; bool act = t.chance(1, 2); w.x.push_back(t.uni(-1, 1)); w.s.push_back(act ? 0 : t.uni(0.3, 2)); w.z.push_back(act ? t.uni(0.3, 2) : 0); w.s.push_back(t.uni(0.3, 2)); w.z.push_back(0);
        q = r; break; }
    }
    plant_rhs(q, w);
}
static ld objective(const QPD &q, const Vec &x) { ld f = 0; for (int i = 0; i < q.n; ++i) { ld a = 0; for (int j = 0; j < q.n; ++j) a += (ld)q.Pe(i, j) * x[j]; f += x[i] * (0.5L * a + q.c[i]); } return f; }
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; GenCfg g = size_cfg(t); gen_planted(t, q, w, g); describe(c, q); int nk = (int)t.range(1, 4), kinds[4]; uint32_t seed = t.raw(); bool far = t.chance(1, 4); int fark = (int)t.below(nk); bool eqv = t.chance(1, 2); if (far) c.label("far transformation");
    for (int k = 0; k < nk; ++k) { kinds[k] = (int)t.below(NK); if (!q.p && (kinds[k] == RECOMB || kinds[k] == PERMA)) kinds[k] = FLIP; c.label(names[kinds[k]]); c.note("transformation: %s", names[kinds[k]]); }
    int ifc = (int)t.below(3), ifc2 = t.chance(1, 2) ? ifc : (int)t.below(3); bool act = q.p > 0; for (double z : w.z) act |= z > 0; c.nontrivial = act;
    with_siblings(t, c, q, w, [&](const QPD &q, const Planted &w) {
        Inst I; I.open(q, ifc); Sol a = I.solve(); check_solved(c, q, w, a, 1e-6, 1e-6, "original");
        QPD r = q; Planted u = w; Map M; M.eqv = eqv; for (int j = 0; j < q.n; ++j) M.pos.push_back(j); M.sg.assign(q.n, 1); M.sh.assign(q.n, 0); Tape tt; pbt::Rng rg(seed); tt.rng = &rg;
        for (int k = 0; k < nk; ++k) transform(r, u, M, kinds[k], tt, far && k == fark);
        Inst J; J.open(r, ifc2); double tol = 1e-6; if (far && eqv) tol = J.q->options->reltol = J.q->options->abstol = 1e-6 * M.f; // the tolerances are absolute: in the new units they scale along
        Sol b = J.solve(); c.sub++; check_solved(c, r, u, b, tol, tol, "transformed", far ? 101 : 50);
        // relation between the two results: both lie within their own error bounds of one optimum
        Resid ra = residuals(q, a.x, a.y, a.z, a.s), rb = residuals(r, b.x, b.y, b.z, b.s); Gap ga = gap_bounds(q, w, a, ra), gb = gap_bounds(r, u, b, rb);
        ld fa = objective(q, a.x) - objective(q, w.x), fb = objective(r, b.x) - objective(r, u.x), sl = 1e-11L * (1 + fabsl(objective(q, w.x)) + fabsl(objective(r, u.x)));
        if (!(fabsl(M.f * fa - fb) <= M.f * (ga.hi + ga.lo) + gb.hi + gb.lo + sl)) fail("optimal-value", fmt("optimal values differ by %Lg after undoing the transformation", M.f * fa - fb));
        if (w.pd && u.pd && q.n <= 40) {
            // minimisers: P-norm distances to the common minimiser are bounded by the gaps
            Vec e(r.n, 0); for (int j = 0; j < q.n; ++j) e[M.pos[j]] = M.sg[j] * a.x[j] - M.sh[j]; ld qq = 0, sc = 0; for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.n; ++j) { ld di = e[M.pos[i]] - b.x[M.pos[i]], dj = e[M.pos[j]] - b.x[M.pos[j]]; qq += di * r.Pe(M.pos[i], M.pos[j]) * dj; sc += fabsl(di * r.Pe(M.pos[i], M.pos[j]) * dj); }
            ld lim = 2 * (M.f * (ga.hi + ga.lo) + gb.hi + gb.lo) + 1e-11L * (1 + sc) + sl; if (!(qq <= lim)) fail("minimiser", fmt("minimisers differ: squared P-norm distance %Lg, allowed %Lg", qq, lim)); c.metric("minimiser distance / allowed", (double)(qq / lim));
        }
    });
}
