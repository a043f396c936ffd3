#include "case.hpp"
const char *property_rule() { return "random problems (well-posed with a planted optimum; unsolvable; wild: nonconvex, rank deficient, badly scaled, non-finite; and problems built around a chosen point so that each residual is a chosen multiple of its tolerance), random entry point, ordering, options and 1-4 calls with option changes; a case is non-trivial when some call reported optimal and the certificate was evaluated"; }
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; bool poke = false; Vec px, py, pz, ps; ld margin = 0;
    double reltol = 1e-6, abstol = 1e-6;
    switch (t.pick({5, 3, 3, 5})) {
    case 0: { GenCfg g = size_cfg(t); gen_planted(t, q, w, g); c.label("planted"); break; }
    case 1: c.label(gen_unsolvable(t, q, margin, 10, 14)); break;
    case 2: gen_wild(t, q, 12, 16, true); c.label("wild"); break;
    default: {
        reltol = std::pow(10.0, -(double)(t.chance(1, 5) ? t.range(8, 13) : t.range(2, 7))); abstol = std::pow(10.0, -(double)(t.chance(1, 5) ? t.range(9, 17) : t.range(2, 8)));
        gen_at_point(t, q, px, py, pz, ps, reltol, abstol, c); poke = true; c.label("placed point"); break; }
    }
    if (!poke && t.chance(1, 5)) { int k = (int)t.range(1, 2); while (k--) q.h[t.below(q.m)] += std::pow(10.0, t.uni(1, 15)); c.label("far bounds"); }
    describe(c, q);
    Inst I; I.sigma_d = 0; int ifc = (int)t.below(3); std::vector<qp_int> pm; bool up = t.chance(1, 5);
    if (up) pm = gen_perm(t, q.n + q.m + q.p);
    if (ifc == IF_SPARSE && t.chance(1, 8)) I.sigma_d = t.uni(0.0, 0.5);
    I.open(q, ifc, up ? &pm : nullptr, ifc == IF_SPARSE && t.chance(1, 3) ? (int)t.below(8) : 0, &t);
    c.note("entry point %d, own permutation %d, sigma_d %g", ifc, up, I.sigma_d);
    int calls = (int)t.range(1, 4);
    if (poke) { I.put(px, py, pz, ps); I.q->options->reltol = reltol; I.q->options->abstol = abstol; }
    for (int k = 0; k < calls; ++k) {
        if ((k || t.chance(1, 2)) && !(poke && k == 0)) { reltol = std::pow(10.0, -(t.chance(1, 4) ? t.uni(-2, 16) : t.uni(0, 9))); abstol = std::pow(10.0, -(t.chance(1, 4) ? t.uni(-2, 18) : t.uni(0, 9))); if (t.chance(1, 60)) abstol = 0; if (t.chance(1, 60)) reltol = 0; I.q->options->reltol = reltol; I.q->options->abstol = abstol; }
        if (t.chance(1, 2)) I.q->options->maxit = t.range(0, 12); else I.q->options->maxit = 100;
        Sol s = I.solve(); c.sub++;
        c.note("call %d: maxit %ld reltol %g abstol %g -> exit %ld after %ld iterations", k, (long)I.q->options->maxit, reltol, abstol, s.flag, s.it);
        if (s.flag != QP_OPTIMAL) { c.label(fmt("exit %ld", s.flag)); continue; }
        c.nontrivial = true; c.label("exit 0");
        Resid r = residuals(q, s.x, s.y, s.z, s.s);
        if (!r.finite) fail("not-finite", fmt("call %d reported optimal with a non-finite entry in x, y, z or s", k));
        if (r.ex + r.ey + r.ez > 0.1L * reltol) c.label("rounding dominated");
        if (!(r.rx <= reltol + r.ex)) fail("stationarity", fmt("call %d: optimal with |Px+c+G'z+A'y| = %Lg > %g", k, r.rx, reltol));
        if (!(r.ry <= reltol + r.ey)) fail("equality", fmt("call %d: optimal with |Ax-b| = %Lg > %g", k, r.ry, reltol));
        if (!(r.rz <= reltol + r.ez)) fail("inequality", fmt("call %d: optimal with |h-Gx-s| = %Lg > %g", k, r.rz, reltol));
        if (!(r.mu <= abstol + r.emu)) fail("complementarity", fmt("call %d: optimal with s'z/m = %Lg > %g", k, r.mu, abstol));
        if (!(r.smin >= 0) || !(r.zmin >= 0)) fail("sign", fmt("call %d: optimal with min s = %Lg, min z = %Lg", k, r.smin, r.zmin));
        c.metric("max residual / reltol", (double)(std::max(std::max(r.rx - r.ex, r.ry - r.ey), r.rz - r.ez) / reltol));
    }
}
