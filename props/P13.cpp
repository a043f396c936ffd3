#include "case.hpp"
using namespace refipm;
const char *property_rule() { return "planted problems (random lower bound on the centring parameter, entry point and ordering, also restarts from written interior points) solved one iteration at a time; the starting point and every step are compared with the documented method carried out in long double from the same iterate, as long as perturbing the iterate by 1e-10 moves the reference step by less than 1e-4; a deviation counts when it persists on perturbed siblings; non-trivial when at least three steps were compared"; }
static ld scale1(const LV &a, const LV &b) { ld s = 0; for (ld v : a) s = std::max(s, fabsl(v)); for (ld v : b) s = std::max(s, fabsl(v)); return s + 1e-3L; }
static ld dist(const Pt &a, const Pt &b, const Pt &sc) // largest difference relative to the size of each block
{
    ld e = 0; auto f = [&](const LV &u, const LV &v, const LV &k) { ld s = scale1(v, k); for (size_t i = 0; i < u.size(); ++i) { ld d = fabsl(u[i] - v[i]); if (!(d == d)) d = 1e30L; e = std::max(e, d / s); } };
    f(a.x, b.x, sc.x); f(a.y, b.y, sc.y); f(a.z, b.z, sc.z); f(a.s, b.s, sc.s); return e;
}
static Pt cur(const QP *q, int n, int m, int p) { Pt a; a.x.assign(q->x, q->x + n); if (p) a.y.assign(q->y, q->y + p); a.z.assign(q->z, q->z + m); a.s.assign(q->s, q->s + m); return a; }
static Pt jiggle(const Pt &a, uint64_t seed, ld e) { pbt::Rng r(seed); Pt b = a; for (LV *v : {&b.x, &b.y, &b.z, &b.s}) for (ld &k : *v) k *= 1 + e * ((ld)(r.next() >> 11) / 4503599627370496.0L - 1); return b; }
static void run(Ctx &c, const QPD &q, int ifc, const std::vector<qp_int> *pm, double sigma_d, bool poke, uint64_t seed, double base, int &steps)
{
    Inst I; I.sigma_d = sigma_d; I.open(q, ifc, pm); int n = q.n, m = q.m, p = q.p; steps = 0;
    if (!poke) {
        Pt at = cur(I.q, n, m, p), a; QPD q2 = q; { pbt::Rng r(seed); for (Vec *v : {&q2.c, &q2.h, &q2.b}) for (double &k : *v) k *= 1 + 1e-10 * ((double)(r.next() >> 11) / 4503599627370496.0 - 1); } Pt b;
        if (!ref_start(q, a, 0) || !ref_start(q2, b, 0)) { c.label("singular starting system"); return; }
        ld sens = dist(b, a, a), e = dist(at, a, a); for (int v = 1; v < 4; ++v) { Pt a2; ref_start(q, a2, v); e = std::min(e, dist(at, a2, a2)); }
        if (sens < 1e-5L) { ld tol = base + 10 * sens; if (!(e <= tol)) fail("starting-point", fmt("the starting point differs from the shifted least-squares point by %Lg (allowed %Lg)", e, tol)); c.metric("starting point deviation", (double)e); c.sub++; }
        else c.label("ill-conditioned starting system");
    } else { pbt::Rng r(seed ^ 77); auto u = [&]() { return (double)(r.next() >> 11) / 9007199254740992.0; }; for (int i = 0; i < n; ++i) I.q->x[i] = 4 * u() - 2; for (int i = 0; i < p; ++i) I.q->y[i] = 4 * u() - 2; double sp = u() * 2; for (int i = 0; i < m; ++i) { I.q->s[i] = std::pow(10, sp * (2 * u() - 1)); I.q->z[i] = std::pow(10, sp * (2 * u() - 1)); } }
    if (base > 1e-6) return; // zero pivots: only the starting point
    I.q->options->maxit = 1; I.q->options->reltol = I.q->options->abstol = 0;
    int st = 0; // 0 predictor-corrector, 1 pure centring, 2 either
    if (seed % 8 == 0) { I.q->options->sigma = seed % 16 ? sigma_d : sigma_d * (double)((seed >> 8) % 7) / 8; st = 1; } // start at or below the bound
    int match = -1; Step bs;
    auto usable = [&](const Pt &a, ld &spread) { ld mu = 0, wl = 1, wh = 1; for (int i = 0; i < m; ++i) { ld r = a.s[i] / a.z[i]; if (!(a.s[i] > 0 && a.z[i] > 0)) return false; wl = std::min(wl, r); wh = std::max(wh, r); mu += a.s[i] * a.z[i] / m; } spread = wh / wl; return mu > 1e-8L && !(mu > 1e6L); };
    // compares one step a -> to with the method's; false: nothing can be said
    auto compare = [&](const Pt &a, const Pt &to, int k, ld spread, const QP *Q) {
        ld best = INFINITY, btol = 0; match = -1; ld mu = 0; for (int i = 0; i < m; ++i) mu += a.s[i] * a.z[i] / m;
        for (int br = 0; br < 2; ++br) {
            if (st != 2 && st != br) continue;
            Step R = ref_step(q, a, br, sigma_d); if (!R.ok) return false;
            ld sens = 0; move(R, a, R.ap, R.ad);
            for (int v = 0; v < 2; ++v) { Pt b = jiggle(a, seed + 2 * k + v, 1e-10L); Step S = ref_step(q, b, br, sigma_d); if (!S.ok) { sens = 1; break; } move(S, b, S.ap, S.ad); sens = std::max(sens, dist(S.to, R.to, R.d)); sens = std::max(sens, fabsl(S.sigma - R.sigma)); }
            if (!(sens < 1e-4L)) return false;
            ld tol = base + 10 * sens + 1e-13L * spread;
            // with nothing (or next to nothing) blocking the step may be 0.99 or 1
            for (int v = 0; v < 4; ++v) {
                ld ap = R.ap, ad = R.ad; if (v & 1) { if (R.bp && R.ap < 1) continue; ap = R.bp ? 0.99L : 1; } if (v & 2) { if (R.bd && R.ad < 1) continue; ad = R.bd ? 0.99L : 1; }
                Step V = R; move(V, a, ap, ad); ld e = dist(to, V.to, R.d); if (e < best) { best = e; btol = tol; bs = V; } if (e <= tol) { match = match >= 0 && match != br ? 2 : br; break; }
            }
        }
        if (match < 0) fail("step", fmt("step %d (%s): the point reached differs from the method's by %Lg of its size (allowed %Lg; mu %Lg, reference sigma %Lg, steps %Lg %Lg; the library reports steps %g %g, sigma %g)", k, st == 1 ? "centring" : st ? "either kind" : "predictor-corrector", best, btol, mu, bs.sigma, bs.ap, bs.ad, (double)Q->stats->alpha_p, (double)Q->stats->alpha_d, (double)Q->options->sigma));
        c.metric("step deviation / allowed", (double)(best / btol)); ++steps; return true;
    };
    ld spread = 1;
    for (int k = 0; k < 30; ++k) {
        Pt a = cur(I.q, n, m, p); for (int i = 0; i < m; ++i) if (!(a.s[i] > 0 && a.z[i] > 0)) fail("interior", fmt("before step %d some entry of s or z is not positive", k));
        if (!usable(a, spread)) break;
        if (!(spread < 1e9L)) { c.label("stopped at a large spread of the scaling"); break; }
        QP_SOLVE(I.q); c.sub++; Pt to = cur(I.q, n, m, p);
        if (!compare(a, to, k, spread, I.q)) { c.label("stopped at an ill-conditioned step"); break; }
        if (st != 1) { if (match == 1) st = 1; else if (match == 0) { ld g = bs.sigma - sigma_d; st = g <= 1e-9L * (sigma_d + 1e-3L) ? (sigma_d > 0 && g == 0 ? 1 : 2) : g < 1e-6L * sigma_d || g < 1e-11L ? 2 : 0; } else st = 2; }
        if (st == 1) c.label("pure centring step next");
    }
    // steps inside one long call: the last step of K iterations against the point K - 1 iterations leave
    if (seed % 3 == 0) {
        pbt::Rng r(seed ^ 3131); double so = 100; if (seed % 4 == 0 && sigma_d > 0) so = sigma_d; int K = 1 + (int)(r.next() % 30), n2 = K > 6 ? 3 : 1; Pt prev;
        for (int k = K; k <= K + n2; ++k) {
            Inst J; J.sigma_d = sigma_d; J.open(q, ifc, pm); J.q->options->maxit = k; J.q->options->reltol = J.q->options->abstol = 0; if (so < 100) J.q->options->sigma = so;
            QP_SOLVE(J.q); if (J.q->stats->IterationCount != k) break; Pt to = cur(J.q, n, m, p); c.sub++;
            if (k > K) { if (!usable(prev, spread) || !(spread < 1e9L)) break; st = so < 100 ? 1 : 2; if (!compare(prev, to, k - 1, spread, J.q)) break; c.label(k > 8 ? "late step of one long call" : "early step of one long call"); if (so < 100) c.label("centring step of one long call"); }
            prev = to;
        }
    }
}
#ifdef BIG
#include "bigqp.hpp"
void property(Tape &t, Ctx &c)
{
    BigQP g; gen_big(t, g, c, true); QPD q; q.alloc((int)g.n, (int)g.m, (int)g.p); each(g.P, [&](long i, long j, double v) { q.Pe((int)i, (int)j) = v; }); each(g.G, [&](long i, long j, double v) { q.Ge((int)i, (int)j) = v; }); each(g.A, [&](long i, long j, double v) { q.Ae((int)i, (int)j) = v; }); q.c = g.c; q.h = g.h; q.b = g.b;
    int ifc = t.pick({2, 1, 1}), steps = 0; std::vector<qp_int> pm; for (long i = 0; i < g.m; ++i) pm.push_back(g.n + g.p + i); for (long i = 0; i < g.n + g.p; ++i) pm.push_back(i); double sd = ifc == 0 && t.chance(1, 3) ? t.uni(0, 0.3) : 0; uint64_t seed = t.raw() * 48 + (t.chance(1, 8) ? 8 : 1); if (seed % 3 == 0) ++seed;
    run(c, q, ifc, &pm, sd, t.chance(1, 4), seed, 1e-7, steps); c.nontrivial = steps >= 2 && g.m > 4000;
}
#else
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; GenCfg g; switch (t.pick({2550, 390, 60, 1})) { case 0: g.nmax = 8; g.mmax = 12; break; case 1: g.nmax = 20; g.mmax = 32; break; case 2: g.nmax = 30; g.mmax = 64; break; default: g.nmax = 60; g.mmax = 130; c.label("large"); }
    gen_planted(t, q, w, g); describe(c, q); int ifc = t.chance(1, 2) ? (int)t.range(1, 2) : 0; double sigma_d = 0; if (ifc == 0) switch (t.pick({4, 2, 2, 1})) { case 1: sigma_d = t.uni(0, 0.5); break; case 2: sigma_d = std::pow(10., -t.uni(0, 6)); break; case 3: sigma_d = t.uni(0.5, 1); break; }
    bool poke = t.chance(1, 4); uint64_t seed = t.raw(); int best = 0; c.note("lower bound on sigma %g, %s", sigma_d, poke ? "written starting point" : "computed starting point");
    if (poke) c.label("written starting point"); if (sigma_d > 0) c.label("lower bound on sigma");
    // no pivoting: orders that meet no zero pivot are compared tightly, others loosely (a zero pivot is replaced by a tiny one)
    std::vector<qp_int> pm; double base = 1e-8; int N = q.n + q.m + q.p;
    if ((w.pd && !q.p) ? t.chance(1, 3) : t.chance(9, 10)) {
        for (int i = 0; i < N; ++i) pm.push_back(i);
        if (!w.pd || t.chance(1, 2)) { std::rotate(pm.begin(), pm.begin() + q.n + q.p, pm.end()); c.label("inequality rows first"); } else c.label("identity ordering");
    } else if (!w.pd || q.p) { base = 3e-2; c.label("starting point only (zero pivots)"); }
    with_siblings(t, c, q, w, [&](const QPD &Q, const Planted &) { int s = 0; run(c, Q, ifc, pm.empty() ? nullptr : &pm, sigma_d, poke, seed, base, s); best = std::max(best, s); });
    c.nontrivial = best >= 3;
}
#endif
