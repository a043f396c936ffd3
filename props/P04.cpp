#include "case.hpp"
const char *property_rule() { return "a well-posed, unsolvable or placed-point problem; its trajectory is recorded by fresh single-call runs with every iteration limit; a second instance then makes 1-6 calls with random iteration limits and tolerances and is compared with the model (stop at the first recorded point whose independently computed residuals meet the tolerances, otherwise at the limit); non-trivial when at least two calls moved or a call stopped early"; }
// 1 meets, 0 does not, -1 too close to tell
static int meets(const Resid &r, double reltol, double abstol)
{
    if (!r.finite) return 0;
    ld lo = reltol / sqrtl(3.0L); int res = 1;
    ld v[3] = {r.rx, r.ry, r.rz}, e[3] = {r.ex, r.ey, r.ez};
    for (int i = 0; i < 3; ++i) { if (v[i] > reltol + e[i]) return 0; if (v[i] + e[i] >= lo * (1 - 1e-9L)) res = -1; }
    if (r.mu > abstol + r.emu) return 0; if (r.mu + r.emu >= abstol) res = -1;
    if (!(r.rx == r.rx) || !(r.mu == r.mu)) return 0;
    return res;
}
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; Vec px, py, pz, ps; bool poke = false; double tr = 1e-6, ta = 1e-6; ld mg;
    switch (t.pick({6, 3, 2})) { case 0: { GenCfg g = size_cfg(t); gen_planted(t, q, w, g); break; } case 1: tr = std::pow(10.0, -(double)t.range(2, 7)); ta = std::pow(10.0, -(double)t.range(2, 7)); gen_at_point(t, q, px, py, pz, ps, tr, ta, c); poke = true; break; default: gen_unsolvable(t, q, mg, 8, 12); }
    describe(c, q); int ifc = (int)t.below(3); double sg = ifc == IF_SPARSE && t.chance(1, 6) ? t.uni(0, 0.5) : 0;
    int big = q.n + q.m > 60, N = big ? (int)t.range(1, 8) : (int)t.range(2, 18); if (!big && t.chance(1, 60)) N = (int)t.range(100, 130);
    std::vector<Sol> T; std::vector<Resid> R;
    auto open = [&](Inst &I) { I.sigma_d = sg; I.open(q, ifc); if (poke) I.put(px, py, pz, ps); };
    if (N <= 20) for (int j = 0; j <= N; ++j) { Inst I; open(I); I.q->options->maxit = j; I.q->options->reltol = 0; I.q->options->abstol = 0; Sol s = I.solve(); c.sub++; if (s.flag != QP_MAXIT && s.it == j) fail("exit-code", fmt("fresh run with maxit %d and zero tolerances: exit code %ld after %ld iterations", j, s.flag, s.it)); if (s.it != j) fail("iteration-count", fmt("fresh run with maxit %d and zero tolerances took %ld iterations", j, s.it)); T.push_back(s); R.push_back(residuals(q, s.x, s.y, s.z, s.s)); }
    else { Inst I; open(I); I.q->options->reltol = 0; I.q->options->abstol = 0; for (int j = 0; j <= N; ++j) { I.q->options->maxit = j ? 1 : 0; Sol s = I.solve(); if (s.flag != QP_MAXIT || s.it != j) fail("exit-code", fmt("one-iteration call %d: exit %ld, count %ld", j, s.flag, s.it)); T.push_back(s); R.push_back(residuals(q, s.x, s.y, s.z, s.s)); } c.label("long trajectory"); }
    if (!big && t.chance(1, 80)) { // a long history: many calls, hundreds of iterations in total
        Inst L; open(L); L.q->options->reltol = 0; L.q->options->abstol = 0; long tot = 0, want = t.range(150, 1500);
        for (int k = 0; tot < want; ++k) {
            long mi = t.chance(1, 4) ? t.range(0, 3) : t.chance(1, 8) ? t.range(100, 400) : t.range(4, 60); if (!k && q.n + q.m + q.p <= 15 && t.chance(1, 10)) { mi = t.chance(1, 8) ? t.range(32000, 66000) : t.range(1000, 9000); c.label("limit in the thousands"); } L.q->options->maxit = mi; Sol s = L.solve(); c.sub++;
            if (s.it != tot + mi || s.flag != QP_MAXIT) fail("long-history", fmt("call %d with limit %ld and zero tolerances after %ld iterations: exit %ld, count %ld", k, mi, tot, s.flag, s.it));
            tot = s.it; if (tot <= N && !same_bits(s.x, T[tot].x)) fail("different-path", fmt("long history: the point after %ld iterations differs from that of an uninterrupted run", tot));
        }
        c.label("long history");
    }
    Inst I; open(I); int pos = 0, calls = (int)t.range(1, 6), moved = 0; bool early = false; double reltol = 1e-6, abstol = 1e-6; long maxit = 100;
    if (I.q->options->maxit != 100) fail("defaults", "default iteration limit is not 100");
    if (I.q->options->reltol != 1e-6 || I.q->options->abstol != 1e-6) fail("defaults", "default tolerances are not 1e-6");
    for (int k = 0; k < calls; ++k) {
        switch (t.pick({2, 2, 2})) { case 0: break; case 1: reltol = std::pow(10.0, -(t.chance(1, 4) ? t.uni(-2, 16) : t.uni(0, 9))); abstol = std::pow(10.0, -(t.chance(1, 4) ? t.uni(-2, 18) : t.uni(0, 9))); break; default: // tolerances just around a recorded point
            { int j = (int)t.below(N + 1); Resid &r = R[j]; ld mr = std::max(std::max(r.rx, r.ry), r.rz); double f = t.chance(1, 2) ? 0.8 : 1.3; if (std::isfinite((double)mr) && mr > 0) reltol = (double)(mr * sqrtl(3.0L) * f); if (std::isfinite((double)r.mu) && r.mu > 0) abstol = (double)(r.mu * (t.chance(1, 2) ? 0.8 : 1.3)); } }
        if (poke && k == 0) { reltol = tr; abstol = ta; }
        if (t.chance(1, 12)) { int w0 = (int)t.below(3); if (w0 != 1) reltol = 0; if (w0 != 0) abstol = 0; }
        if (t.chance(3, 4)) maxit = t.range(0, std::min(6, N)); if (maxit > N - pos && !(maxit == 100 && k == 0)) maxit = N - pos;
        I.q->options->maxit = maxit; I.q->options->reltol = reltol; I.q->options->abstol = abstol;
        Sol s = I.solve(); c.sub++;
        c.note("call %d: at point %d, maxit %ld reltol %.17g abstol %.17g -> exit %ld, count %ld", k, pos, maxit, reltol, abstol, s.flag, s.it);
        if (I.q->options->maxit != maxit || I.q->options->reltol != reltol || I.q->options->abstol != abstol) fail("options-changed", "the call modified the limits it was given");
        if (I.q->stats->Flag != s.flag) fail("flag-mismatch", fmt("returned %ld, stored %ld", s.flag, (long)I.q->stats->Flag));
        long d = s.it - pos; if (d < 0 || d > maxit) fail("iteration-limit", fmt("call %d took %ld iterations, limit %ld", k, d, maxit));
        if (s.it > N) { c.label("ran past the recorded trajectory"); break; }
        for (long j = pos; j <= std::min<long>(s.it, pos + maxit - 1); ++j) {
            int me = meets(R[j], reltol, abstol);
            if (me == 1 && j < s.it) fail("did-not-stop", fmt("call %d went on from point %ld, which meets the tolerances (rx %Lg ry %Lg rz %Lg mu %Lg)", k, j, R[j].rx, R[j].ry, R[j].rz, R[j].mu));
            if (j == s.it) { // stopped before the limit
                if (me == 0) fail("stopped-early", fmt("call %d stopped at point %ld, which does not meet the tolerances (rx %Lg ry %Lg rz %Lg mu %Lg), exit %ld", k, j, R[j].rx, R[j].ry, R[j].rz, R[j].mu, s.flag));
                if (s.flag != QP_OPTIMAL) fail("exit-code", fmt("call %d stopped at point %ld before its limit with exit code %ld", k, j, s.flag)); early = true;
            }
        }
        if (d == maxit && s.flag != QP_MAXIT) fail("exit-code", fmt("call %d used all %ld iterations and returned %ld", k, maxit, s.flag));
        if (d) ++moved; pos = (int)s.it; const Sol &e = T[pos];
        if (!same_bits(s.x, e.x) || !same_bits(s.y, e.y) || !same_bits(s.z, e.z) || !same_bits(s.s, e.s)) fail("different-path", fmt("call %d: the point after %d iterations differs from that of an uninterrupted run", k, pos));
        c.label(s.flag ? "exit at the limit" : "exit optimal");
    }
    c.nontrivial = moved >= 2 || early;
}
