#include "qp.hpp"
#include "hooks.h"
#include <sys/mman.h>
const char *property_rule() { return "1-3 live instances on arbitrary data (planted, unsolvable, wild, non-finite, empty or dense patterns, occasionally large) with random entry point, column style and permutation, driven by a random sequence of set-up, option change, solve, repeated solve, failed ordering and clean-up steps under AddressSanitizer and UndefinedBehaviorSanitizer; inputs live in exact-size heap blocks, or on read-only pages that end at an inaccessible one, and are compared with copies after every step, allocations are tracked; non-trivial when at least one solve ran iterations"; }
static long fail_k, cnt;
static void *failing(size_t n) { return cnt++ == fail_k ? nullptr : v_malloc(n); }
static bool read_only; // inputs of this case live on read-only pages that end at an inaccessible one: even a write that is undone before the call returns is caught
static const size_t PG = 4096;
template <class T> struct Blk {
    T *p = nullptr; char *map = nullptr; size_t len = 0; std::vector<T> copy;
    void set(const T *d, size_t n) {
        size_t by = n * sizeof(T); copy.assign(d, d + n);
        if (!read_only || !n) { p = (T *)malloc(by); if (n) memcpy(p, d, by); return; }
        len = (by + PG - 1) / PG * PG + PG; map = (char *)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (map == (char *)MAP_FAILED) { map = nullptr; p = (T *)malloc(by); memcpy(p, d, by); return; }
        p = (T *)(map + len - PG - by); memcpy(p, d, by); mprotect(map, len - PG, PROT_READ); mprotect(map + len - PG, PG, PROT_NONE);
    }
    bool same() const { return copy.empty() || !memcmp(p, copy.data(), copy.size() * sizeof(T)); }
    Blk() {} Blk(const Blk &) = delete; Blk(Blk &&o) { std::swap(p, o.p); std::swap(map, o.map); std::swap(len, o.len); copy.swap(o.copy); }
    ~Blk() { if (map) munmap(map, len); else free(p); }
};
struct Obj {
    QPD q; int ifc; bool eq; Blk<qp_int> Pj, Pi, Aj, Ai, Gj, Gi, pm; Blk<double> P, A, G, c, h, b; QP *w = nullptr; long live0 = 0; double sigma_d = 0;
    void make(Tape &t, Ctx &cx) {
        ld mg; Planted pl;
        switch (t.pick({4, 3, 5, 1})) {
        case 0: { GenCfg g; g.nmax = 12; g.mmax = 16; gen_planted(t, q, pl, g); break; }
        case 1: gen_unsolvable(t, q, mg, 10, 12); break;
        case 2: gen_wild(t, q, 12, 16, true); break;
        default: { gen_wild(t, q, 30, 60, true); int n2 = t.chance(1, 3) ? (int)t.range(100, 220) : 0; if (n2) { int m2 = (int)t.range(1, 120); QPD z; z.alloc(n2, m2, t.chance(1, 2) ? (int)t.range(1, 30) : 0); for (int i = 0; i < n2; ++i) z.Pe(i, i) = t.val(); for (int i = 0; i < m2; ++i) { int nz = (int)t.range(1, 3); for (int a = 0; a < nz; ++a) z.Ge(i, (int)t.below(n2)) = t.val(); } if (t.chance(1, 2)) { int j = (int)t.below(n2), i0 = (int)t.below(m2); for (int i = 0; i < m2; ++i) z.Ge(i, j) = 1; for (int k = 0; k < n2; ++k) z.Ge(i0, k) = 1; for (int k = 0; k < n2; ++k) if (t.chance(4, 5)) z.Pe(j, k) = z.Pe(k, j) = 0.01; } for (int i = 0; i < z.p; ++i) z.Ae(i, (int)t.below(n2)) = 1; for (auto &v : z.h) v = 1; for (auto &v : z.c) v = t.val(); q = z; cx.label("large"); } }
        }
        if (t.chance(1, 25)) for (auto &v : q.G) v = 0; if (t.chance(1, 25)) for (auto &v : q.P) v = 0; if (t.chance(1, 25)) for (auto &v : q.A) v = 0;
        ifc = (int)t.below(3); eq = q.p && !t.chance(1, 12); describe(cx, q); cx.note("entry point %d", ifc);
        if (ifc == IF_SPARSE) {
            int st = t.chance(1, 2) ? (int)t.below(8) : 0; Csc p = to_csc(q.n, q.n, q.P, st, &t), a = to_csc(q.p, q.n, q.A, st, &t), g = to_csc(q.m, q.n, q.G, st, &t);
            Pj.set(p.jc.data(), p.jc.size()); Pi.set(p.ir.data(), p.ir.size()); P.set(p.pr.data(), p.pr.size()); Gj.set(g.jc.data(), g.jc.size()); Gi.set(g.ir.data(), g.ir.size()); G.set(g.pr.data(), g.pr.size());
            if (q.p) { Aj.set(a.jc.data(), a.jc.size()); Ai.set(a.ir.data(), a.ir.size()); A.set(a.pr.data(), a.pr.size()); }
            if (t.chance(1, 8)) sigma_d = t.uni(0, 1);
        } else { Vec p = q.P, a = q.A, g = q.G; if (ifc == IF_ROW) { p = row_major(q.n, q.n, q.P); a = row_major(q.p, q.n, q.A); g = row_major(q.m, q.n, q.G); } P.set(p.data(), p.size()); G.set(g.data(), g.size()); if (q.p) A.set(a.data(), a.size()); }
        c.set(q.c.data(), q.n); h.set(q.h.data(), q.m); if (q.p) b.set(q.b.data(), q.p);
        if (t.chance(1, 3)) { auto v = gen_perm(t, q.n + q.m + (eq ? q.p : 0)); pm.set(v.data(), v.size()); cx.note("own permutation"); }
    }
    void setup() {
        double *bb = eq ? b.p : nullptr;
        if (ifc == IF_SPARSE) w = QP_SETUP(q.n, q.m, q.p, Pj.p, Pi.p, P.p, Aj.p, Ai.p, A.p, Gj.p, Gi.p, G.p, c.p, h.p, bb, sigma_d, pm.p);
        else w = QP_SETUP_dense(q.n, q.m, q.p, P.p, A.p, G.p, c.p, h.p, bb, pm.p, ifc == IF_ROW ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING);
    }
    void clean() { if (ifc == IF_SPARSE) QP_CLEANUP(w); else QP_CLEANUP_dense(w); w = nullptr; }
    void intact(const char *when) const
    {
        const char *bad = nullptr; if (!Pj.same() || !Pi.same() || !P.same()) bad = "P"; if (!Aj.same() || !Ai.same() || !A.same()) bad = "A"; if (!Gj.same() || !Gi.same() || !G.same()) bad = "G"; if (!c.same()) bad = "c"; if (!h.same()) bad = "h"; if (!b.same()) bad = "b"; if (!pm.same()) bad = "permutation";
        if (bad) fail("input-modified", fmt("the caller's %s was modified by %s", bad, when));
    }
};
void property(Tape &t, Ctx &c)
{
    vh_reset(); vh.track = 1; vh.fill = 256; vh.fill_seed = t.raw();
    struct End { ~End() { vh.fail_at = -1; vh_reset(); } } end;
    read_only = t.chance(1, 4); if (read_only) { c.label("read-only inputs"); c.note("inputs on read-only pages"); }
    int no = t.pick({5, 2, 1}) + 1; std::vector<Obj> o(no); std::vector<int> opened(no, 0);
    for (auto &x : o) x.make(t, c);
    int steps = (int)t.range(2, 4 * no + 4); void *(*old)(size_t) = amd_malloc; struct Re { void *(*o)(size_t); ~Re() { amd_malloc = o; } } re{old};
    auto all = [&](const char *w) { for (auto &x : o) x.intact(w); if (vh.badfree) fail("bad-free", fmt("%s released a block that the library did not allocate or released it twice", w)); };
    auto open = [&](Obj &x) {
        if (t.chance(1, 8)) { fail_k = t.range(0, 4); cnt = 0; amd_malloc = failing; c.note("set-up with failing allocation %ld of the ordering", fail_k); c.label("failed ordering"); }
        x.setup(); amd_malloc = old; all("set-up");
        if (!x.w) fail("setup", "set-up returned nothing");
    };
    for (int k = 0; k < steps; ++k) {
        Obj &x = o[t.below(no)];
        if (!x.w) { c.note("set-up"); open(x); opened[&x - &o[0]]++; continue; }
        int op = t.pick({6, 2, 2}); c.note("object %d op %d", (int)(&x - &o[0]), op);
        if (op == 0) {
            x.w->options->maxit = x.q.n > 40 ? t.range(0, 3) : t.chance(1, 6) ? 100 : t.range(0, 8); qp_int a = x.w->stats->IterationCount; QP_SOLVE(x.w); c.sub++; if (x.w->stats->IterationCount > a) c.nontrivial = true; all("solve");
            volatile double sink = 0; for (int i = 0; i < x.q.n; ++i) sink += x.w->x[i]; for (int i = 0; i < x.q.m; ++i) sink += x.w->z[i] + x.w->s[i]; for (int i = 0; i < x.w->p; ++i) sink += x.w->y[i];
        }
        else if (op == 1) { x.w->options->reltol = std::pow(10., -t.uni(0, 10)); x.w->options->abstol = std::pow(10., -t.uni(0, 10)); x.w->options->sigma = t.uni(0, 10); }
        else { x.clean(); all("clean-up"); bool any = false; for (auto &y : o) any |= y.w != nullptr; if (!any && vh.live) fail("leak", fmt("%ld blocks are still allocated after clean-up", vh.live)); c.label("cleaned up"); }
    }
    for (auto &x : o) if (x.w) { x.clean(); all("clean-up"); }
    if (vh.live) fail("leak", fmt("%ld blocks are still allocated after all instances were cleaned up", vh.live));
    c.label(fmt("%d instances", no));
}
