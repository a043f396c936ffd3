#include "case.hpp"
const char *property_rule() { return "planted, unsolvable and arbitrary problems (random lower bound on the centring parameter, entry point and ordering, also from written interior points) solved one iteration at a time; interior iterates, step sizes and the one percent rule are checked on all of them while the numbers stay finite, the contraction of the residual vectors on well-posed problems with orderings that meet no zero pivot (a deviation counts when it persists on perturbed siblings); non-trivial when at least four steps were taken"; }
typedef std::vector<ld> LV;
static ld norm(const LV &v) { ld a = 0; for (ld x : v) a = std::max(a, fabsl(x)); return a; }
struct RV { LV x, y, z, Pdx; ld sx = 1, sy = 1, sz = 1; };
static RV resid(const QPD &q, const QP *w)
{
    RV r; int n = q.n, m = q.m, p = q.p; r.x.assign(n, 0); r.y.assign(p, 0); r.z.assign(m, 0);
    auto big = [](ld &s, ld v) { s = std::max(s, fabsl(v)); };
    for (int j = 0; j < n; ++j) { ld v = q.c[j]; big(r.sx, v); for (int i = 0; i < n; ++i) { ld u = (ld)q.Pe(j, i) * w->x[i]; v += u; big(r.sx, u); } for (int i = 0; i < m; ++i) { ld u = (ld)q.Ge(i, j) * w->z[i]; v += u; big(r.sx, u); } for (int i = 0; i < p; ++i) { ld u = (ld)q.Ae(i, j) * w->y[i]; v += u; big(r.sx, u); } r.x[j] = v; }
    for (int i = 0; i < p; ++i) { ld v = -(ld)q.b[i]; big(r.sy, v); for (int j = 0; j < n; ++j) { ld u = (ld)q.Ae(i, j) * w->x[j]; v += u; big(r.sy, u); } r.y[i] = v; }
    for (int i = 0; i < m; ++i) { ld v = (ld)w->s[i] - q.h[i]; big(r.sz, w->s[i]); big(r.sz, q.h[i]); for (int j = 0; j < n; ++j) { ld u = (ld)q.Ge(i, j) * w->x[j]; v += u; big(r.sz, u); } r.z[i] = v; }
    return r;
}
static void positive(const Vec &v, const char *who, int k)
{
    for (size_t i = 0; i < v.size(); ++i) if (!(v[i] > 0)) fail("interior", fmt("after %d steps %s[%zu] = %g", k, who, i, v[i]));
}
static void one_percent(const Vec &a, const Vec &b, double alpha, const char *who, int k)
{
    if (!(alpha > 0 && alpha <= 1)) fail("step-size", fmt("step %d: %s step %.17g is not in (0, 1]", k, who, alpha));
    ld lo = INFINITY; size_t at = 0; for (size_t i = 0; i < a.size(); ++i) { ld r = (ld)b[i] / a[i]; if (r < lo) lo = r, at = i; }
    if (lo < 0.01L * (1 - 1e-9L)) fail("one-percent", fmt("step %d: entry %zu of %s fell to %.12Lg of its value", k, at, who, lo));
    if (alpha < 1 - 1e-12 && lo > 0.01L * (1 + 1e-9L) && !(alpha > 0.99 * (1 - 1e-12) && lo >= 1 - 1e-9L)) fail("short-step", fmt("step %d: %s step %.17g although the closest entry is still at %.12Lg of its value", k, who, alpha, lo));
}
static void run(Ctx &c, const QPD &q, int ifc, const std::vector<qp_int> *pm, double sigma_d, bool poke, uint64_t seed, bool contract, int len, int &steps)
{
    Inst I; I.sigma_d = sigma_d; I.open(q, ifc, pm); int n = q.n, m = q.m, p = q.p; steps = 0; if (!I.q) fail("setup", "set-up failed");
    auto S = [&]() { return Vec(I.q->s, I.q->s + m); }; auto Z = [&]() { return Vec(I.q->z, I.q->z + m); };
    auto fine = [&](const Vec &v) { for (double x : v) if (!std::isfinite(x) || std::fabs(x) > 1e200 || std::fabs(x) < 1e-200) return false; return true; };
    auto finite = [&]() { for (int i = 0; i < n; ++i) if (!(std::fabs(I.q->x[i]) < 1e200)) return false; return true; };
    if (poke) { pbt::Rng r(seed ^ 77); auto u = [&]() { return (double)(r.next() >> 11) / 9007199254740992.0; }; for (int i = 0; i < n; ++i) I.q->x[i] = 4 * u() - 2; for (int i = 0; i < p; ++i) I.q->y[i] = 4 * u() - 2; double sp = u() * 3; for (int i = 0; i < m; ++i) { I.q->s[i] = std::pow(10, sp * (2 * u() - 1)); I.q->z[i] = std::pow(10, sp * (2 * u() - 1)); } }
    I.q->options->maxit = 1; I.q->options->reltol = I.q->options->abstol = 0;
    Vec s0 = S(), z0 = Z(); auto nonan = [](const Vec &v) { for (double x : v) if (!std::isfinite(x)) return false; return true; };
    if (!nonan(s0) || !nonan(z0) || !finite()) { c.label("starting point not finite"); return; }
    if (!contract) { for (const Vec *v : {&s0, &z0}) for (double k : *v) if (k > 1e12) { c.label("starting point beyond 1e12"); return; } }
    positive(s0, "s", 0); positive(z0, "z", 0);
    RV r0 = resid(q, I.q); Vec x0(I.q->x, I.q->x + n); ld spread0 = 1;
    for (int k = 1; k <= len; ++k) {
        if (!fine(s0) || !fine(z0)) break;
        ld wl = 1, wh = 1, mu = 0; for (int i = 0; i < m; ++i) { ld r = (ld)s0[i] / z0[i]; wl = std::min(wl, r); wh = std::max(wh, r); mu += (ld)s0[i] * z0[i] / m; }
        spread0 = wh / wl; if (mu < 1e-14L) break;
        long fl = QP_SOLVE(I.q); c.sub++; Vec s1 = S(), z1 = Z(), x1(I.q->x, I.q->x + n); double ap = I.q->stats->alpha_p, ad = I.q->stats->alpha_d;
        if (fl == QP_FATAL || fl == QP_KKTFAIL) { c.label("solve ended early"); break; }
        if (fl != QP_MAXIT && fl != QP_OPTIMAL) { c.label("solve ended early"); break; }
        if (!nonan(s1) || !nonan(z1) || !finite() || !(ap > 1e-290) || !(ad > 1e-290)) { if (contract && spread0 < 1e9L) fail("not-finite", fmt("step %d of a well-posed problem gives a point that is not finite or no step at all (%g, %g)", k, ap, ad)); c.label("numbers left the representable range"); break; }
        if (I.q->stats->IterationCount < 1) break; // called optimal before the step: exactly zero residuals
        positive(s1, "s", k); positive(z1, "z", k); one_percent(s0, s1, ap, "s", k); one_percent(z0, z1, ad, "z", k); ++steps;
        if (ap < 1 && ad < 1 && (ap < 0.5 || ad < 0.5)) c.label("short step");
        RV r1 = resid(q, I.q);
        if (contract && spread0 < 1e9L && mu > 1e-8L) {
            LV e; ld Pmax = 0, base = 1e-7L + 1e-12L * spread0;
            ld all = std::max(std::max(std::max(r0.sx, r1.sx), std::max(r0.sy, r1.sy)), std::max(r0.sz, r1.sz));
            auto dev = [&](const LV &a, const LV &b, ld al, ld sc, const char *who, const LV *extra) {
                sc += 1e-6L * all; ld d = 0, rel; for (size_t i = 0; i < a.size(); ++i) { ld v = a[i] - (1 - al) * b[i]; if (extra) v -= (*extra)[i]; if (!(v == v)) v = 1e30L; d = std::max(d, fabsl(v)); }
                rel = d / (sc * base); c.metric(std::string("contraction deviation / allowed, ") + who, (double)rel);
                if (!(rel <= 1)) fail(std::string("contraction-") + who, fmt("step %d of length %Lg: the %s residual went from %Lg to %Lg, off by %Lg (allowed %Lg; sizes %Lg %Lg %Lg, spread %Lg, mu %Lg)", k, al, who, norm(b), norm(a), d, sc * base, r1.sx, r1.sy, r1.sz, spread0, mu));
            };
            dev(r1.y, r0.y, ap, std::max(r0.sy, r1.sy), "equality", nullptr);
            dev(r1.z, r0.z, ap, std::max(r0.sz, r1.sz), "inequality", nullptr);
            LV ex(n, 0); ld f = 1 - (ld)ad / ap; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ex[i] += f * (ld)q.Pe(i, j) * ((ld)x1[j] - x0[j]); Pmax = norm(ex);
            dev(r1.x, r0.x, ad, std::max(std::max(r0.sx, r1.sx), Pmax), "stationarity", &ex);
            if (ap == ad) c.label("equal step lengths");
        }
        r0 = r1; s0 = s1; z0 = z1; x0 = x1;
    }
}
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; GenCfg g; int kind = t.pick({70, 12, 18}); uint64_t seed; int best = 0;
    if (kind == 0) { if (t.chance(1, 60)) { g.nmax = 30; g.mmax = 70; if (t.chance(1, 12)) { g.nmax = 140; g.mmax = 280; c.label("large"); } } else if (t.chance(1, 6)) { g.nmax = 20; g.mmax = 32; } else { g.nmax = 8; g.mmax = 12; } gen_planted(t, q, w, g); }
    else if (kind == 1) { ld mg; c.label(gen_unsolvable(t, q, mg, 8, 12)); }
    else { gen_wild(t, q, 8, 12, false); c.label("arbitrary data"); }
    int ifc = t.chance(1, 2) ? (int)t.range(1, 2) : 0; double sigma_d = 0; if (ifc == 0) switch (t.pick({4, 2, 2, 1})) { case 1: sigma_d = t.uni(0, 0.5); break; case 2: sigma_d = std::pow(10., -t.uni(0, 6)); break; case 3: sigma_d = t.uni(0.5, 1); break; }
    bool poke = t.chance(1, 4); seed = t.raw(); int len = t.chance(1, 5) ? 60 : 25;
    describe(c, q); c.note("lower bound on sigma %g, %s", sigma_d, poke ? "written starting point" : "computed starting point"); if (poke) c.label("written starting point");
    std::vector<qp_int> pm; int N = q.n + q.m + q.p; bool contract = false;
    if (kind == 0) {
        contract = true;
        if ((w.pd && !q.p) ? t.chance(1, 3) : t.chance(9, 10)) {
            for (int i = 0; i < N; ++i) pm.push_back(i);
            if (!w.pd || t.chance(1, 2)) { std::rotate(pm.begin(), pm.begin() + q.n + q.p, pm.end()); c.label("inequality rows first"); } else c.label("identity ordering");
        } else if (!w.pd || q.p) contract = false;
    }
    if (!contract) { if (pm.empty() && t.chance(1, 3)) pm = gen_perm(t, N); run(c, q, ifc, pm.empty() ? nullptr : &pm, sigma_d, poke, seed, false, len, best); }
    else with_siblings(t, c, q, w, [&](const QPD &Q, const Planted &) { int s = 0; run(c, Q, ifc, pm.empty() ? nullptr : &pm, sigma_d, poke, seed, true, len, s); best = std::max(best, s); });
    c.nontrivial = best >= 4;
}
