#include "qp.hpp"
#include "hooks.h"
const char *property_rule() { return "a problem solved under a simulated monotonic clock that advances by a random amount at every reading (microseconds, near-second, multi-second and multi-year steps, readings around a second boundary) and, in half of the cases, at every allocation and release, and a wall clock that jumps back by an hour per reading; 1-3 solve calls; the reported set-up and solve times are compared with the difference of the last and first reading of the call, which must span the call; non-trivial when some call crossed a second boundary"; }
static std::vector<long long> steps; static long long stepper(long k) { return vh.clock_now > 4000000000000000000LL ? 1000 : steps[(size_t)k % steps.size()]; }
void property(Tape &t, Ctx &c)
{
    vh_reset(); struct End { ~End() { vh_reset(); } } end;
    QPD q; Planted w; GenCfg g; g.nmax = 8; g.mmax = 10; if (t.chance(1, 60)) { g.nmax = 60; g.mmax = 140; } ld mg; if (t.chance(4, 5)) gen_planted(t, q, w, g); else gen_unsolvable(t, q, mg, 6, 8); describe(c, q);
    int mode = t.pick({3, 2, 2, 2, 1}); int ns = (int)t.range(1, 40); steps.clear(); long long mn = 1LL << 60;
    for (int i = 0; i < ns; ++i) { long long s; switch (mode) { case 0: s = t.range(1000, 1000000); break; case 1: s = t.range(1, 2000000000); break; case 2: s = t.chance(1, 3) ? 1000000000LL * t.range(0, 5) + t.range(0, 3) + 1 : 999999990LL + t.range(0, 20); break; case 3: s = t.chance(1, 2) ? 1 : 4000000000LL * t.range(1, 1000); break; default: s = t.chance(3, 4) ? t.range(1, 1000000) : 1000000000LL * t.range(1, 50000000) + t.range(0, 999999999); } steps.push_back(s); mn = std::min(mn, s); } if (mode == 4) mn = std::min(mn, 1000LL);
    long long sec = t.chance(1, 5) ? 0 : (long long)t.range(1, 100000000); long long ns0 = t.chance(1, 3) ? 999999000LL + t.range(0, 999) : t.chance(1, 4) ? 0 : (long long)t.below(1000000000);
    long long tickns = t.chance(1, 2) ? (long long)t.range(1, 5000000) : 0; vh.alloc_tick = tickns;
    vh.clock_fake = 1; vh.clock_now = sec * 1000000000LL + ns0; vh.clock_step = stepper;
    c.note("clock starts at %lld.%09lld, steps mode %d, %d of them, smallest %lld ns", sec, ns0, mode, ns, mn);
    double sg = t.chance(1, 4) ? t.uni(0.0, 0.8) : 0; int ifc = sg ? IF_SPARSE : (int)t.below(3); std::vector<qp_int> pm; bool up = t.chance(1, 4); if (up) pm = gen_perm(t, q.n + q.m + q.p);
    long long enter = 0;
    auto span = [&](const char *what, double rep) {
        long long d = vh.last_read - vh.first_read; double want = (double)d / 1e9;
        if (vh.clock_reads < 2) fail("clock-not-read", fmt("%s read the monotonic clock %ld times", what, vh.clock_reads));
        if (vh.first_read / 1000000000LL != vh.last_read / 1000000000LL) c.nontrivial = true;
        if (!(rep >= 0)) fail("negative-time", fmt("%s time is %g", what, rep));
        if (!(std::fabs(rep - want) <= 1e-9 * want + 2e-12 + (double)sec * 0)) fail("wrong-time", fmt("%s time is %.12g s, the clock moved from %lld ns to %lld ns (%.12g s)", what, rep, vh.first_read, vh.last_read, want));
        // time also passes at allocations: hardly any of it may lie outside the measured interval
        if (vh.first_read - enter > 4 * tickns) fail("not-the-whole-call", fmt("%s: %lld ns passed before the measurement began (%lld ns per allocation)", what, vh.first_read - enter, tickns));
        long long after = vh.clock_now - vh.after_last - vh.last_read; if (after > 4 * tickns) fail("not-the-whole-call", fmt("%s: %lld ns passed after the measurement ended (%lld ns per allocation or release)", what, after, tickns));
        if (vh.clock_wall_reads) c.label("wall clock read");
    };
    Inst I; I.sigma_d = sg; I.prepare(q, ifc, up ? &pm : nullptr); vh.clock_reads = 0; enter = vh.clock_now; I.setup(); span("set-up", I.q->stats->tsetup); double tset = I.q->stats->tsetup;
    int calls = (int)t.range(1, 3); double ldl0 = 0;
    for (int k = 0; k < calls; ++k) {
        if (t.chance(3, 4)) I.q->options->maxit = t.range(0, 12); if (k) I.q->options->reltol = std::pow(10., -t.uni(0, 9));
        long it0 = I.q->stats->IterationCount; vh.clock_reads = 0; enter = vh.clock_now; long flag = QP_SOLVE(I.q); c.sub++; const stats *st = I.q->stats; long it = st->IterationCount - it0;
        c.note("call %d: %ld iterations, exit %ld, solve %.12g kkt %.12g ldl %.12g", k, it, flag, st->tsolve, st->kkt_time, st->ldl_numeric);
        span("solve", st->tsolve); if (memcmp(&st->tsetup, &tset, 8)) fail("setup-time-changed", "the solve changed the set-up time");
        double ldl = st->ldl_numeric >= ldl0 ? st->ldl_numeric - ldl0 : st->ldl_numeric; /* accumulates over calls */ double tol = 1e-9 * st->tsolve + 1e-9 * st->ldl_numeric + 1e-11;
        if (!(ldl >= -tol) || !(st->kkt_time >= 0)) fail("negative-time", fmt("call %d: factorisation time grew by %g, KKT time %g", k, ldl, st->kkt_time));
        if (!(ldl <= st->kkt_time + tol) || !(st->kkt_time <= st->tsolve + tol)) fail("time-order", fmt("call %d: factorisation %.12g, KKT %.12g, solve %.12g", k, ldl, st->kkt_time, st->tsolve));
        double least = (double)it * (double)mn / 1e9;
        if (!(st->kkt_time >= least - tol)) fail("time-missing", fmt("call %d: KKT time %.12g for %ld iterations, each reading of the clock advances it by at least %lld ns", k, st->kkt_time, it, mn));
        if (!(ldl >= least - tol)) fail("time-missing", fmt("call %d: factorisation time %.12g for %ld iterations, each reading of the clock advances it by at least %lld ns", k, ldl, it, mn));
        if (it == 0 && (st->kkt_time > tol || ldl > tol)) fail("time-order", fmt("call %d: no iterations but KKT time %g, factorisation time %g", k, st->kkt_time, ldl));
        ldl0 = st->ldl_numeric; c.label(fmt("exit %ld", flag));
    }
}
