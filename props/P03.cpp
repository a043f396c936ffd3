#include "qp.hpp"
const char *property_rule() { return "problems without a solution by construction (Farkas-infeasible inequalities, contradictory equalities, equality against inequality, unbounded direction, NaN/Inf data), random entry point, ordering, iteration limit and tolerances, 1-3 solve calls on the instance; every evaluated case is non-trivial"; }
void property(Tape &t, Ctx &c)
{
    QPD q; ld margin; int sz = t.pick({8, 2, 1}); const char *cls = gen_unsolvable(t, q, margin, sz == 0 ? 8 : sz == 1 ? 24 : 60, sz == 0 ? 12 : sz == 1 ? 40 : 90);
    c.label(cls); describe(c, q); c.note("class: %s, residual at least %Lg", cls, margin);
    Inst I; int ifc = (int)t.below(3); std::vector<qp_int> pm; bool up = t.chance(1, 5); if (up) pm = gen_perm(t, q.n + q.m + q.p);
    if (ifc == IF_SPARSE && t.chance(1, 8)) I.sigma_d = t.uni(0, 0.5);
    I.open(q, ifc, up ? &pm : nullptr);
    double reltol = 1e-6; c.nontrivial = true; int calls = (int)t.range(1, 3); long tot = 0;
    for (int k = 0; k < calls; ++k) {
        if (t.chance(1, 3)) { reltol = std::pow(10.0, -t.uni(3, 8)); I.q->options->reltol = reltol; I.q->options->abstol = std::pow(10.0, -t.uni(1, 8)); }
        long mi = t.chance(1, 2) ? t.range(0, 40) : 100; I.q->options->maxit = mi;
        Sol s = I.solve(); c.sub++; c.note("call %d: maxit %ld reltol %g -> exit %ld after %ld iterations in total", k, mi, reltol, s.flag, s.it);
        if (s.it - tot > mi || s.it < tot) fail("too-many-iterations", fmt("call %d took %ld iterations, limit %ld", k, s.it - tot, mi)); tot = s.it;
        if (s.flag == QP_OPTIMAL) {
            if (reltol > margin / 10) { c.label("tolerance too loose to tell"); continue; }
            Resid r = residuals(q, s.x, s.y, s.z, s.s);
            if (r.finite && r.ex + r.ey + r.ez > 0.01L * margin) { c.label("optimal, but rounding hides the residual"); continue; }
            fail("called-optimal", fmt("call %d reported optimal on a problem with no solution (%s, residual at least %Lg)", k, cls, margin));
        }
        if (s.flag != QP_KKTFAIL && s.flag != QP_MAXIT && s.flag != QP_FATAL) fail("undocumented-code", fmt("exit code %ld", s.flag));
        c.label(fmt("exit %ld", s.flag));
    }
}
