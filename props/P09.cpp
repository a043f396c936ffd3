#include "case.hpp"
const char *property_rule() { return "planted, unsolvable, wild and placed-point problems, random entry point, column style and ordering, 1-5 solve calls with random limits and tolerances (also zero iterations at a point written into the instance); after each call the reported objective, residual norms and complementarity are compared with extended-precision evaluations at the returned point, within a rigorous rounding bound; non-trivial when some call reported figures of a finite point after iterating or at a written point"; }
static void cmp(const char *what, int call, const Sol &s, double got, ld want, ld e, Ctx &c)
{
    if (!std::isfinite((double)want) || !std::isfinite((double)e) || fabsl(want) + e > 1e150L) { c.label("figure out of range"); return; }
    ld tol = e + 1e-150L;
    if (!(fabsl((ld)got - want) <= tol)) fail(what, fmt("call %d (exit %ld, count %ld): reported %s %.17g, the returned point has %.17Lg (rounding bound %Lg)", call, s.flag, s.it, what, got, want, tol));
    c.metric("deviation / rounding bound", (double)(fabsl(got - want) / tol));
}
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; Vec px, py, pz, ps; bool poke = false; ld mg;
    switch (t.pick({5, 2, 4, 3})) { case 0: { GenCfg g = size_cfg(t); gen_planted(t, q, w, g); break; } case 1: gen_unsolvable(t, q, mg, 10, 14); break; case 2: gen_wild(t, q, 12, 16, true); break; default: gen_at_point(t, q, px, py, pz, ps, 1e-4, 1e-4, c); poke = true; }
    describe(c, q); int ifc = (int)t.below(3); std::vector<qp_int> pm; bool up = t.chance(1, 5); if (up) pm = gen_perm(t, q.n + q.m + q.p);
    Inst I; I.sigma_d = ifc == IF_SPARSE && t.chance(1, 8) ? t.uni(0, 0.5) : 0; I.open(q, ifc, up ? &pm : nullptr, ifc == IF_SPARSE && t.chance(1, 3) ? (int)t.below(8) : 0, &t);
    if (poke) I.put(px, py, pz, ps);
    int calls = (int)t.range(1, 5);
    for (int k = 0; k < calls; ++k) {
        bool written = poke && k == 0;
        if (k && t.chance(1, 4)) { // a written point, wild magnitudes
            Vec x(q.n), y(q.p), z(q.m), s(q.m); double m = std::pow(10.0, (double)t.range(-6, 6)); for (Vec *v : {&x, &y, &z, &s}) for (auto &a : *v) a = t.uni(-1, 1) * m; for (Vec *v : {&z, &s}) for (auto &a : *v) a = std::fabs(a); I.put(x, y, z, s); written = true;
        }
        if (t.chance(3, 4)) I.q->options->maxit = written ? t.range(0, 2) : t.range(0, 15); else I.q->options->maxit = 100;
        if (t.chance(1, 2)) { I.q->options->reltol = std::pow(10., -t.uni(0, 9)); I.q->options->abstol = std::pow(10., -t.uni(0, 9)); }
        long before = I.q->stats->IterationCount; Sol s = I.solve(); c.sub++; c.label(fmt("exit %ld", s.flag));
        c.note("call %d: maxit %ld -> exit %ld, count %ld", k, (long)I.q->options->maxit, s.flag, s.it);
        Resid r = residuals(q, s.x, s.y, s.z, s.s);
        if (q.p == 0 && I.q->stats->n_ry != 0) fail("equality residual", fmt("call %d: no equality constraints but the equality residual is reported as %g", k, I.q->stats->n_ry));
        if (!r.finite) { c.label("non-finite point"); continue; }
        bool nf = false; for (const Vec *v : {&q.P, &q.G, &q.A, &q.c, &q.h, &q.b}) for (double a : *v) nf |= !(std::fabs(a) < 1e150); if (nf) continue;
        if (s.it > before || written) c.nontrivial = true;
        cmp("stationarity residual", k, s, s.nrx, r.rx, r.ex, c); cmp("inequality residual", k, s, s.nrz, r.rz, r.ez, c); if (q.p) cmp("equality residual", k, s, s.nry, r.ry, r.ey, c);
        cmp("complementarity", k, s, s.nmu, r.mu, r.emu, c); cmp("objective value", k, s, s.fval, r.f, r.ef, c);
    }
}
