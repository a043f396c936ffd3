#include "qp.hpp"
#include "hooks.h"
const char *property_rule() { return "a problem with a planted optimum solved under the built-in ordering, under 1-3 random permutations supplied by the caller (arbitrary ones when P is positive definite, ones that eliminate the inequality rows first otherwise; equality rows always after the variables), and, with positive definite P, under the fallback used when an allocation of the ordering routine fails (every failing allocation); every result goes through the full optimality oracle; non-trivial when at least one supplied permutation is not the identity"; }
static long fail_k, cnt;
static void *failing(size_t n) { return cnt++ == fail_k ? nullptr : v_malloc(n); }
void property(Tape &t, Ctx &c)
{
    QPD q; Planted w; GenCfg g = size_cfg(t); if (t.chance(3, 5)) g.allow_psd = g.allow_lp = false; gen_planted(t, q, w, g); describe(c, q);
    int ifc = (int)t.below(3), style = ifc == IF_SPARSE && t.chance(1, 3) ? (int)t.range(1, 7) : 0; if (style) c.label("irregular compressed columns"); int k = q.n + q.m + q.p;
    std::vector<std::vector<qp_int>> perms; int np = (int)t.range(1, 3);
    for (int a = 0; a < np; ++a) {
        std::vector<qp_int> pm = gen_perm(t, k);
        if (!w.pd) { std::vector<qp_int> r; for (qp_int v : pm) if (v >= q.n + q.p) r.push_back(v); for (qp_int v : pm) if (v < q.n + q.p) r.push_back(v); pm = r; }
        if (q.p) { // and equality rows after the variables (there is no pivoting)
            std::vector<qp_int> r; int seen = 0; std::vector<qp_int> held; for (qp_int v : pm) { if (v >= q.n && v < q.n + q.p && seen < q.n) { held.push_back(v); continue; } r.push_back(v); if (v < q.n && ++seen == q.n) r.insert(r.end(), held.begin(), held.end()); } pm = r; }
        for (int i = 0; i < k; ++i) if (pm[i] != i) c.nontrivial = true;
        perms.push_back(pm);
        if (c.want_desc) { Vec d(pm.begin(), pm.end()); c.vec("permutation", d); }
    }
    int order = (int)t.below(2); // sets up the permuted instances before or after the default one
    with_siblings(t, c, q, w, [&](const QPD &q, const Planted &w) {
        auto dflt = [&]() { Inst I; I.open(q, ifc, nullptr, style, &t); if (!g_safe_order && !(I.q->stats->AMD_RESULT >= 0)) fail("ordering-status", fmt("built-in ordering of a valid pattern reports status %ld", (long)I.q->stats->AMD_RESULT)); check_solved(c, q, w, I.solve(), 1e-6, 1e-6, "built-in ordering"); };
        if (order) dflt();
        for (auto &pm : perms) {
            Inst I; I.open(q, ifc, &pm, style, &t); c.sub++;
            if (I.q->stats->AMD_RESULT != -3) fail("ordering-status", fmt("a supplied permutation is reported with status %ld", (long)I.q->stats->AMD_RESULT));
            for (int i = 0; i < k; ++i) if (I.q->kkt->P[i] != pm[i] || I.q->kkt->Pinv[pm[i]] != i) fail("permutation-not-used", fmt("position %d: elimination order holds %ld, supplied %ld", i, (long)I.q->kkt->P[i], (long)pm[i]));
            Sol s = I.solve(); if (I.perm != pm) fail("permutation-modified", "the caller's permutation was modified by set-up or solve");
            I.cleanup(); if (I.perm != pm) fail("permutation-modified", "the caller's permutation was modified or released by clean-up");
            check_solved(c, q, w, s, 1e-6, 1e-6, "supplied permutation");
        }
        if (!order) dflt();
        if (w.pd) for (int a = 0; a < 6; ++a) {
            Inst I; void *(*old)(size_t) = amd_malloc; fail_k = a; cnt = 0; amd_malloc = failing; I.prepare(q, ifc, nullptr, style, &t); I.setup(); amd_malloc = old; c.sub++;
            if (cnt <= fail_k) { c.label(fmt("ordering makes %d allocations", a)); break; }
            if (!(I.q->stats->AMD_RESULT < 0) || I.q->stats->AMD_RESULT == -3) fail("ordering-status", fmt("allocation %d of the ordering failed but the status is %ld", a, (long)I.q->stats->AMD_RESULT));
            for (int i = 0; i < k; ++i) if (I.q->kkt->P[i] != i) fail("fallback", fmt("after a failed ordering position %d of the elimination order is %ld", i, (long)I.q->kkt->P[i]));
            check_solved(c, q, w, I.solve(), 1e-6, 1e-6, "fallback ordering");
        }
    });
    c.label(w.pd ? "positive definite P" : "singular P");
}
