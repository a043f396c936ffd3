#include "qp.hpp"
const char *property_rule() { return "convex problems with a planted optimum, full-row-rank equalities and a strictly feasible point (P diagonal, sparse, dense, banded, low rank, singular or zero; general, bound, degenerate and all-zero rows), random entry point, default settings; non-trivial when at least one inequality is active at the optimum or there are equalities"; }
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; GenCfg g = size_cfg(t, getenv("PBT_SCALE") ? atoi(getenv("PBT_SCALE")) : 1); gen_planted(t, q, w, g); describe(c, q);
    int ifc = (int)t.below(3); c.note("entry point %d", ifc);
    for (double v : w.z) if (v > 0) c.nontrivial = true; if (q.p) c.nontrivial = true;
    c.label(w.pd ? "positive definite P" : "singular P"); if (q.n > 12 || q.m > 20) c.label("medium or large");
    with_siblings(t, c, q, w, [&](const QPD &q, const Planted &w) {
    Inst I; I.open(q, ifc); Sol s = I.solve(); c.label(fmt("iterations %02ld", s.it));
    check_solved(c, q, w, s, 1e-6, 1e-6, "default settings");
    // the reported objective is that optimum too
    Resid r = residuals(q, s.x, s.y, s.z, s.s);
    if (!(fabsl(s.fval - r.f) <= r.ef + 1e-15L)) fail("reported-objective", fmt("reported objective %.17g, x gives %.17Lg", s.fval, r.f));
    });
}
