#include "qp.hpp"
#include "hooks.h"
const char *property_rule() { return "2-4 problems (planted, unsolvable, wild, some sharing input arrays), each first run alone as a list of set-up, option and solve steps on zero-filled memory; then all of them again with the steps of the different instances interleaved at random, instances of other problems created and destroyed in between, and fresh memory filled with another pattern; every result of every step is compared bit for bit and bystander instances are checked for changes; non-trivial when two instances were alive at the same time and one solve ran iterations"; }
struct Step { int kind; long maxit; double rt, at; };
struct Rec { Sol s; double ap, ad; long amd; };
static bool same(const Rec &a, const Rec &b) { auto d = [](double x, double y) { return !memcmp(&x, &y, 8); }; return a.s.flag == b.s.flag && a.s.it == b.s.it && same_bits(a.s.x, b.s.x) && same_bits(a.s.y, b.s.y) && same_bits(a.s.z, b.s.z) && same_bits(a.s.s, b.s.s) && d(a.s.fval, b.s.fval) && d(a.s.nrx, b.s.nrx) && d(a.s.nry, b.s.nry) && d(a.s.nrz, b.s.nrz) && d(a.s.nmu, b.s.nmu) && d(a.ap, b.ap) && d(a.ad, b.ad) && a.amd == b.amd; }
static Rec rec(const Inst &I, long flag, bool solved = true) { Rec r; r.s = I.snap(flag); if (!solved) r.s.fval = r.s.nrx = r.s.nry = r.s.nrz = r.s.nmu = 0; // not set before the first solve
    r.ap = I.q->stats->alpha_p; r.ad = I.q->stats->alpha_d; r.amd = I.q->stats->AMD_RESULT; return r; }
static void apply(Inst &I, const Step &s) { if (s.kind == 1) { I.q->options->maxit = s.maxit; I.q->options->reltol = s.rt; I.q->options->abstol = s.at; } }
struct Job { QPD q; int ifc; std::vector<qp_int> pm; double sg; int style; uint32_t sseed; std::vector<Step> st; std::vector<Rec> ref; };
static void prep(Inst &I, const Job &j) { Tape st; pbt::Rng r(j.sseed); st.rng = &r; I.sigma_d = j.sg; I.prepare(j.q, j.ifc, j.pm.empty() ? nullptr : &j.pm, j.style, &st); }
static const char *diff(const Rec &a, const Rec &b) { if (a.s.flag != b.s.flag) return "exit code"; if (a.s.it != b.s.it) return "iteration count"; if (!same_bits(a.s.x, b.s.x)) return "x"; if (!same_bits(a.s.y, b.s.y)) return "y"; if (!same_bits(a.s.z, b.s.z)) return "z"; if (!same_bits(a.s.s, b.s.s)) return "s"; return "reported figures"; }
#include <pthread.h>
static void run_alone(const Job &J, std::vector<Rec> &out)
{
    Inst I; prep(I, J); I.setup(); out.push_back(rec(I, I.q->stats->Flag, false));
    for (auto &s : J.st) { if (s.kind == 1) apply(I, s); else { long f = QP_SOLVE(I.q); out.push_back(rec(I, f)); } }
}
void property(Tape &t, Ctx &c)
{
    vh_reset(); struct End { ~End() { vh_reset(); } } end;
    int nj = (int)t.range(2, 4); std::vector<Job> J(nj);
    for (int i = 0; i < nj; ++i) {
        Job &j = J[i]; ld mg; Planted w;
        if (i && t.chance(1, 4)) { j = J[t.below(i)]; j.ref.clear(); j.st.clear(); if (t.chance(1, 2)) for (auto &v : j.q.c) v = t.val(); c.label("same matrices"); }
        else switch (t.pick({4, 1, 2})) { case 0: { GenCfg g = size_cfg(t); if (g.nmax > 40 && !t.chance(1, 6)) { g.nmax = 40; g.mmax = 60; } gen_planted(t, j.q, w, g); break; } case 1: gen_unsolvable(t, j.q, mg, 8, 10); break; default: gen_wild(t, j.q, 8, 12, true); }
        j.ifc = (int)t.below(3); j.sg = t.chance(1, 8) ? t.uni(0, 0.3) : 0; j.style = t.chance(1, 3) ? (int)t.below(8) : 0; j.sseed = (uint32_t)t.raw(); if (t.chance(1, 4)) j.pm = gen_perm(t, j.q.n + j.q.m + j.q.p); else j.pm.clear();
        c.note("problem %d, entry point %d", i, j.ifc); describe(c, j.q);
        int ns = (int)t.range(1, 5); for (int k = 0; k < ns; ++k) { Step s; s.kind = t.chance(1, 3); s.maxit = t.range(0, 12); s.rt = std::pow(10., -t.uni(0, 9)); s.at = std::pow(10., -t.uni(0, 9)); j.st.push_back(s); }
        if (t.chance(2, 3)) j.st.push_back({0, 0, 0, 0});
    }
#ifdef P08_THREADS
    for (auto &j : J) run_alone(j, j.ref);
    std::vector<std::vector<Rec>> out(nj * 2); std::vector<pthread_t> th(nj * 2); struct Arg { const Job *j; std::vector<Rec> *o; }; std::vector<Arg> ar(nj * 2);
    for (int i = 0; i < nj * 2; ++i) { ar[i] = {&J[i % nj], &out[i]}; pthread_create(&th[i], 0, [](void *p) -> void * { Arg *a = (Arg *)p; run_alone(*a->j, *a->o); return 0; }, &ar[i]); }
    for (auto &x : th) pthread_join(x, 0);
    for (int i = 0; i < nj * 2; ++i) { c.sub++; for (size_t k = 0; k < out[i].size(); ++k) { if (out[i][k].s.it > 0) c.nontrivial = true; if (!same(out[i][k], J[i % nj].ref[k])) fail("thread-dependent", fmt("problem %d, result %zu differs in %s when solved beside other threads", i % nj, k, diff(out[i][k], J[i % nj].ref[k]))); } }
    return;
#endif
    vh.fill = 0; for (auto &j : J) run_alone(j, j.ref);
    static const int pats[] = {0xff, 256, 0x7f, 0x3f, 1, 0}; vh.fill = pats[t.below(6)]; vh.fill_seed = t.raw(); c.note("second run: memory pattern %d", vh.fill);
    struct Live { Inst I; const Job *j = nullptr; size_t k = 0, r = 0; Rec last; bool solved = false; double rt, at; long mi; double sg; }; std::vector<Live> L(nj + 2); int steps = (int)t.range(4, 40); bool two = false;
    bool share = t.chance(1, 2); std::vector<Inst> proto(nj); for (int i = 0; i < nj; ++i) prep(proto[i], J[i]);
    auto bystanders = [&](Live *me) { int alive = 0; for (auto &l : L) if (l.I.q) { ++alive; if (&l == me) continue; Rec r = rec(l.I, l.last.s.flag, l.solved); if (!same(r, l.last)) fail("interference", fmt("another instance's step changed an idle instance (%s)", diff(r, l.last))); if (l.I.q->options->reltol != l.rt || l.I.q->options->abstol != l.at || l.I.q->options->maxit != l.mi || memcmp(&l.I.q->options->sigma, &l.sg, 8)) fail("interference", "another instance's step changed an idle instance's options"); } if (alive > 1) two = true; };
    auto note = [&](Live &l) { l.rt = l.I.q->options->reltol; l.at = l.I.q->options->abstol; l.mi = l.I.q->options->maxit; l.sg = l.I.q->options->sigma; };
    bool ran = false;
    for (int k = 0; k < steps; ++k) {
        Live &l = L[t.below(L.size())];
        if (!l.I.q) {
            int ji = (int)t.below(nj); l.j = &J[ji]; l.k = l.r = 0; prep(l.I, *l.j);
            if (share && l.j->ifc == IF_SPARSE) { // read the matrices and vectors from arrays shared with other instances
                Inst &p = proto[ji]; l.I.q = QP_SETUP(p.d.n, p.d.m, p.d.p, p.P.jc.data(), p.P.I(), p.P.X(), p.d.p ? p.A.jc.data() : 0, p.d.p ? p.A.I() : 0, p.d.p ? p.A.X() : 0, p.G.jc.data(), p.G.I(), p.G.X(), p.c.data(), p.h.data(), p.d.p ? p.b.data() : 0, l.j->sg, l.j->pm.empty() ? nullptr : p.perm.data()); c.label("shared input arrays");
            } else l.I.setup();
            l.last = rec(l.I, l.I.q->stats->Flag, false); note(l); if (!same(l.last, l.j->ref[0])) fail("not-deterministic", fmt("the starting point of problem %d differs in %s from its first run", ji, diff(l.last, l.j->ref[0]))); l.r = 1; l.solved = false; bystanders(&l); continue;
        }
        if (l.k >= l.j->st.size() || t.chance(1, 8)) { l.I.cleanup(); l.j = nullptr; bystanders(nullptr); continue; }
        const Step &s = l.j->st[l.k++]; if (s.kind == 1) { apply(l.I, s); note(l); continue; }
        long f = QP_SOLVE(l.I.q); c.sub++; l.solved = true; l.last = rec(l.I, f); note(l); if (l.last.s.it > 0) ran = true;
        if (!same(l.last, l.j->ref[l.r])) fail("not-deterministic", fmt("result %zu of a problem differs in %s from the run in isolation (exit %ld after %ld, alone %ld after %ld)", l.r, diff(l.last, l.j->ref[l.r]), l.last.s.flag, l.last.s.it, l.j->ref[l.r].s.flag, l.j->ref[l.r].s.it));
        ++l.r; bystanders(&l);
    }
    for (auto &l : L) l.I.cleanup();
    c.nontrivial = two && ran;
}
