#include "case.hpp"
#include <sys/syscall.h>
const char *property_rule() { return "planted, unsolvable, wild and placed-point problems; the same 1-4 solve calls (random limits and tolerances, verbosity changing between calls) on a silent and on a talking instance with standard output captured, results compared bit for bit and every printed line compared with the points of a run made one iteration at a time; non-trivial when a call with positive verbosity printed at least one step"; }
struct Cap { // captures file descriptor 1
    static int mem() { static int fd = memfd_create("cap", 0); return fd; }
    int saved; Cap() { fflush(stdout); if (ftruncate(mem(), 0)) {} lseek(mem(), 0, SEEK_SET); saved = dup(1); dup2(mem(), 1); }
    std::string done() { if (saved < 0) return ""; fflush(stdout); dup2(saved, 1); close(saved); saved = -1; off_t n = lseek(mem(), 0, SEEK_END); std::string s(n, 0); if (pread(mem(), &s[0], n, 0) != n) {} return s; }
    ~Cap() { if (saved >= 0) done(); }
};
static bool number(const std::string &line, const char *key, double &v) { size_t a = line.find(key); if (a == std::string::npos) return false; a = line.find(':', a); if (a == std::string::npos) return false; const char *b = line.c_str() + a + 1; char *e; v = strtod(b, &e); return e != b; }
static void near(const char *what, double printed, ld want, ld err, int call, long it)
{
    if (!std::isfinite((double)want) || !std::isfinite((double)err) || fabsl(want) > 1e150L || fabsl(want) + err > 1e150L) return;
    if (!(fabsl(printed - want) <= 1e-6L * fabsl(want) + err + 1e-150L)) fail(what, fmt("call %d: the line of iteration %ld shows %s %.17g, that point has %.17Lg", call, it, what, printed, want));
}
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; Vec px, py, pz, ps; bool poke = false; ld mg;
    switch (t.pick({5, 2, 3, 2})) { case 0: { GenCfg g = size_cfg(t); if (g.nmax > 40 && !t.chance(1, 6)) { g.nmax = 40; g.mmax = 60; } gen_planted(t, q, w, g); break; } case 1: gen_unsolvable(t, q, mg, 10, 14); break; case 2: gen_wild(t, q, 10, 12, true); break; default: gen_at_point(t, q, px, py, pz, ps, 1e-4, 1e-4, c); poke = true; }
    describe(c, q); int ifc = (int)t.below(3); double sg = ifc == IF_SPARSE && t.chance(1, 6) ? t.uni(0, 0.5) : 0;
    bool nf = false; for (const Vec *v : {&q.P, &q.G, &q.A, &q.c, &q.h, &q.b}) for (double a : *v) nf |= !(std::fabs(a) < 1e150);
    Inst S, V; std::string out; S.sigma_d = V.sigma_d = sg;
    { Cap cap; S.open(q, ifc); out = cap.done(); } if (!out.empty()) fail("output", "set-up wrote to standard output: " + out.substr(0, 200));
    { Cap cap; V.open(q, ifc); out = cap.done(); } if (!out.empty()) fail("output", "set-up wrote to standard output: " + out.substr(0, 200));
    if (S.q->options->verbose != 0) fail("default", "default verbosity is not zero");
    if (poke) { S.put(px, py, pz, ps); V.put(px, py, pz, ps); }
    // the points, one iteration at a time
    Inst T; T.sigma_d = sg; T.open(q, ifc); if (poke) T.put(px, py, pz, ps); T.q->options->maxit = 0; T.q->options->reltol = T.q->options->abstol = 0; std::vector<Sol> pts; std::vector<Resid> R; Vec ap, ad;
    auto upto = [&](long k) { while ((long)pts.size() <= k) { if (pts.size()) T.q->options->maxit = 1; Sol s = T.solve(); if (pts.size()) { ap.push_back(T.q->stats->alpha_p); ad.push_back(T.q->stats->alpha_d); } R.push_back(residuals(q, s.x, s.y, s.z, s.s)); pts.push_back(s); } };
    int calls = (int)t.range(1, 4); long pos = 0;
    for (int k = 0; k < calls; ++k) {
        long maxit = t.chance(1, 4) ? 100 : t.range(0, 15); double rt = std::pow(10., -t.uni(0, 9)), at = std::pow(10., -t.uni(0, 9)); if (t.chance(1, 3)) rt = at = 1e-6; if (q.n + q.m + q.p <= 7 && t.chance(1, 100)) { maxit = t.range(950, 2600); rt = at = 0; c.label("long trace"); } int vb = (int)t.pick({4, 3, 1, 1, 1}); static const int lv[] = {1, 2, 0, 3, 100}; vb = lv[vb];
        for (Inst *I : {&S, &V}) { I->q->options->maxit = maxit; I->q->options->reltol = rt; I->q->options->abstol = at; } V.q->options->verbose = vb;
        Sol a, b; { Cap cap; a = S.solve(); out = cap.done(); } if (!out.empty()) fail("output", "a silent solve wrote to standard output: " + out.substr(0, 200));
        { Cap cap; b = V.solve(); out = cap.done(); }
        c.sub += 2; c.note("call %d: maxit %ld reltol %g abstol %g verbosity %d -> exit %ld count %ld", k, maxit, rt, at, vb, b.flag, b.it); c.label(fmt("exit %ld", b.flag)); c.label(fmt("verbosity %d", vb));
        auto fb = [](double x, double y) { return !memcmp(&x, &y, 8); };
        if (a.flag != b.flag || a.it != b.it || !same_bits(a.x, b.x) || !same_bits(a.y, b.y) || !same_bits(a.z, b.z) || !same_bits(a.s, b.s) || !fb(a.fval, b.fval) || !fb(a.nrx, b.nrx) || !fb(a.nry, b.nry) || !fb(a.nrz, b.nrz) || !fb(a.nmu, b.nmu) || !fb(S.q->options->sigma, V.q->options->sigma)) fail("verbosity-changes-result", fmt("call %d: verbosity %d changes the result", k, vb));
        if (V.q->options->verbose != vb) fail("verbosity-changed", "the call changed the verbosity setting");
        if (vb <= 0) { if (!out.empty()) fail("output", "a silent solve wrote to standard output: " + out.substr(0, 200)); pos = b.it; continue; }
        { size_t e = out.find('\n'), k1 = out.find("qpSWIFT"); if (k1 == std::string::npos || k1 > e || out.find("qpSWIFT", e) != std::string::npos) fail("opening", fmt("call %d does not open with one line that names the solver: ", k) + out.substr(0, 120)); }
        upto(b.it);
        long pt = pos, st = pos; int closing[2] = {0, 0}; long its = -1; int nits = 0; size_t o = 0;
        while (o < out.size()) {
            size_t e = out.find('\n', o); if (e == std::string::npos) e = out.size(); std::string l = out.substr(o, e - o); o = e + 1; double v;
            if (l.find("pcost") != std::string::npos) {
                if (!number(l, "It", v) || v != pt) fail("iteration-line", fmt("call %d: expected the line of iteration %ld, found: %s", k, pt, l.substr(0, 200).c_str()));
                if (pt > b.it) fail("iteration-line", fmt("call %d: a line for iteration %ld, the count is %ld", k, pt, b.it));
                if (st != pt) fail("step-line", fmt("call %d: no step line before iteration %ld", k, pt));
                const Resid &r = R[pt]; static const char *nm[] = {"pcost", "rx", "ry", "rz", "mu"}; ld wn[] = {r.f, r.rx, q.p ? r.ry : 0, r.rz, r.mu}, er[] = {r.ef, r.ex, r.ey, r.ez, r.emu};
                for (int i = 0; i < 5; ++i) { if (!number(l, nm[i], v)) fail("iteration-line", fmt("call %d: no %s in: %s", k, nm[i], l.c_str())); if (!nf && r.finite) near(nm[i], v, wn[i], er[i], k, pt); }
                ++pt;
            } else if (l.find("Step Size") != std::string::npos) {
                double v1, v2; if (!number(l, "Primal Step Size", v1) || !number(l, "Dual Step Size", v2)) fail("step-line", "unreadable: " + l);
                if (st >= b.it || st + 1 != pt) fail("step-line", fmt("call %d: unexpected step line after iteration %ld", k, pt - 1));
                if (std::isfinite(ap[st]) && std::isfinite(ad[st]) && (!(std::fabs(v1 - ap[st]) <= 1e-6) || !(std::fabs(v2 - ad[st]) <= 1e-6))) fail("step-size", fmt("call %d: step %ld shows %g and %g, taken %.9g and %.9g", k, st, v1, v2, ap[st], ad[st]));
                ++st; c.nontrivial = true;
            }
            if (l.find("Optimal Solution Found") != std::string::npos) closing[0]++; if (l.find("Maximum Iterations reached") != std::string::npos) closing[1]++;
            if (l.find("Unknown Error") != std::string::npos || l.find("Factorization fail") != std::string::npos) fail("closing", "unexpected message: " + l);
            if (l.find("Iterations ") != std::string::npos && l.find("reached") == std::string::npos && number(l, "Iterations", v)) { its = (long)v; ++nits; }
            if (l.find("KKT_Solve Time") != std::string::npos && number(l, "KKT_Solve Time", v)) { if (std::fabs(v - V.q->stats->kkt_time * 1e3) > 2e-6 + 1e-6 * std::fabs(v)) fail("time-line", fmt("KKT time printed %g ms, reported %g s", v, V.q->stats->kkt_time)); }
            else if (l.find("LDL Time") != std::string::npos && number(l, "LDL Time", v)) { if (std::fabs(v - V.q->stats->ldl_numeric * 1e3) > 2e-6 + 1e-6 * std::fabs(v)) fail("time-line", fmt("LDL time printed %g ms, reported %g s", v, V.q->stats->ldl_numeric)); }
            else if (l.find("Solve Time") != std::string::npos && number(l, "Solve Time", v)) { double u = V.q->stats->tsolve * 1e3, x = u + V.q->stats->tsetup * 1e3; if (std::fabs(v - u) > 2e-6 + 1e-6 * u && std::fabs(v - x) > 2e-6 + 1e-6 * x) fail("time-line", fmt("solve time printed %g ms, reported %g s (set-up %g s)", v, V.q->stats->tsolve, V.q->stats->tsetup)); }
        }
        long expect = b.flag == QP_OPTIMAL ? b.it + 1 : b.it; // points examined end at the optimum, or before the point the limit leaves
        if (pt != expect) fail("iteration-line", fmt("call %d (exit %ld): lines up to iteration %ld, examined up to %ld", k, b.flag, pt - 1, expect - 1));
        if (st != b.it) fail("step-line", fmt("call %d: step lines up to %ld, %ld steps were taken", k, st, b.it));
        if (closing[0] != (b.flag == QP_OPTIMAL) || closing[1] != (b.flag == QP_MAXIT)) fail("closing", fmt("call %d: exit code %ld, closing messages optimal %d, limit %d", k, b.flag, closing[0], closing[1]));
        if (nits != 1 || its != b.it) fail("closing", fmt("call %d: the closing message gives %ld iterations (%d times), the count is %ld", k, its, nits, b.it));
        pos = b.it;
    }
}
