#include <map>
#include "graph.hpp"
#ifdef BIG // very large patterns
#include "bigqp.hpp"
#endif
const char *property_rule() { return "random square patterns (structured and random graphs, any mix of triangles, missing diagonals, rectangular-looking unsymmetric patterns, unsorted columns, repeated entries, dense rows, dimension 0 to 1500), invalid variants of them (bad pointers, indices out of range, missing arrays, negative dimension), every control setting, failing allocations; permutation, status, statistics, leaks, untouched inputs and repeatability; non-trivial when the pattern has an off-diagonal entry"; }
static const double NEVER = -77;
struct Run { Lg ret = 99; LV P; double Info[20]; };
static Run order(int n, const LV &ap, const LV &ai, double *Control, Lg fill, bool info)
{
    Run r; r.P.assign(n > 0 ? n : 0, fill); r.P.shrink_to_fit(); for (auto &v : r.Info) v = NEVER; Lg z = 0;
    r.ret = amd_l_order(n, ap.data(), ai.empty() ? &z : ai.data(), r.P.empty() ? &z : r.P.data(), Control, info ? r.Info : 0); return r;
}
// memory functions of the caller's own: blocks that no other allocator could release
extern "C" { extern void *(*amd_realloc)(void *, size_t); extern void *(*amd_calloc)(size_t, size_t); void *v_malloc(size_t); void v_free(void *); }
static std::map<char *, size_t> own_live; static long own_left, own_bad, own_count;
static void *own_malloc(size_t k) { ++own_count; if (own_left-- == 0) return nullptr; char *b = (char *)v_malloc(k + 64); own_live[b + 64] = k; return b + 64; }
static void own_free(void *p) { if (!p) return; if (!own_live.erase((char *)p)) { ++own_bad; return; } v_free((char *)p - 64); }
static void *own_calloc(size_t a, size_t b) { void *p = own_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
static void *own_realloc(void *p, size_t k) { void *q = own_malloc(k); if (q && p && own_live.count((char *)p)) memcpy(q, p, std::min(k, own_live[(char *)p])); if (q) own_free(p); return q; }
void property(Tape &t, Ctx &c)
{
    vh_reset(); vh.track = 1; int kind = t.pick({6, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1, 1}); int n = t.chance(1, 30) ? (int)t.dim(0, 1500) : t.chance(1, 4) ? (int)t.dim(0, 120) : (int)t.dim(0, 24); if (kind == G_DENSE) n = std::min(n, 60);
#ifdef BIG
    n = (int)big_dim(t); if (kind == G_RANDOM && n > 40000) n = 32700 + n % 200; if (kind == G_DENSE) kind = G_EMPTY; if (kind == G_STAR || kind == G_HUBS || kind == G_ARROW) c.label("dense rows");
#endif
    pbt::Rng r(t.raw()); Graph g = gen_graph(kind, n, r); if (t.chance(1, 2)) g.relabel(shuffle(n, r)); int how = t.pick({3, 1, 1, 3}), dg = (int)t.below(3); Pat p = pattern(g, how, dg, r); bool direct = kind == G_RANDOM && t.chance(1, 2);
    if (direct && n) { int den = (int)t.range(0, 3); p.ap.assign(1, 0); p.ai.clear(); for (int j = 0; j < n; ++j) { std::set<Lg> s; int k = (int)r.below(2 * den + 1); for (int a = 0; a < k; ++a) s.insert((Lg)r.below(n)); p.ai.insert(p.ai.end(), s.begin(), s.end()); p.ap.push_back((Lg)p.ai.size()); } }
    Pat sorted = p; int jum = t.pick({3, 1, 1, 1}); // 1 unsorted 2 repeated 3 both
    if (jum) { LV ap{0}, ai; for (int j = 0; j < n; ++j) { LV col(p.ai.begin() + p.ap[j], p.ai.begin() + p.ap[j + 1]); if (jum & 2) { size_t k = col.size(); for (size_t a = 0; a < k; ++a) if (r.below(4) == 0) { col.push_back(col[a]); if (r.below(4) == 0) col.push_back(col[a]); } if (jum == 2) std::sort(col.begin(), col.end()); } if (jum & 1) for (size_t k = col.size(); k > 1; --k) std::swap(col[k - 1], col[r.below(k)]); ai.insert(ai.end(), col.begin(), col.end()); ap.push_back((Lg)ai.size()); } p.ap = ap; p.ai = ai; p.ap.shrink_to_fit(); p.ai.shrink_to_fit(); }
    bool jumbled = false; for (int j = 0; j < n; ++j) for (Lg a = p.ap[j] + 1; a < p.ap[j + 1]; ++a) jumbled |= p.ai[a] <= p.ai[a - 1];
    double Control[5]; amd_l_defaults(Control); static const double al[] = {10, -1, 0, 0.2, 0.5, 1, 2, 1e9, -1e9, 0.01}; static const double ag[] = {1, 0, -1, 0.5}; if (t.chance(1, 2)) { Control[0] = al[t.below(10)]; Control[1] = ag[t.below(4)]; } 
#ifdef BIG // rows joined to everything make an ordering that must not set them aside quadratic
    if ((kind == G_STAR || kind == G_HUBS || kind == G_ARROW) && (Control[0] < 0 || Control[0] > 100)) Control[0] = 10;
#endif
    double C0[5]; memcpy(C0, Control, sizeof C0); bool defc = C0[0] == 10 && C0[1] == 1;
    double *cp = defc && t.chance(1, 3) ? nullptr : Control;
    c.note("%s pattern, n=%d, triangles=%d diagonal=%d scrambled=%d control %g %g%s", gname(kind), n, how, dg, jum, C0[0], C0[1], cp ? "" : " (defaults, none passed)"); c.vec("Ap", p.ap); c.vec("Ai", p.ai); c.label(gname(kind)); if (jumbled) c.label("jumbled");
    LV ap0 = p.ap, ai0 = p.ai; auto untouched = [&](const char *w, const LV &ap, const LV &ai, const LV &a0, const LV &i0) { if (ap != a0 || ai != i0) fail("input-modified", w); if (memcmp(C0, Control, sizeof C0)) fail("input-modified", std::string(w) + ": control"); };
    auto noleak = [&](const char *w) { if (vh.live || vh.badfree) fail("leak", fmt("%s: %ld blocks outstanding, %ld bad releases", w, vh.live, vh.badfree)); };
    // facts about the pattern
    std::set<std::pair<int, int>> S; long nzd = 0, off = 0, both = 0; for (int j = 0; j < n; ++j) for (Lg a = p.ap[j]; a < p.ap[j + 1]; ++a) S.insert({(int)p.ai[a], j}); for (auto &e : S) if (e.first == e.second) nzd++; else { off++; both += S.count({e.second, e.first}); } long aat = 2 * off - both; c.nontrivial = aat > 0;
    int fillk = t.pick({1, 1, 1}); vh.fill = fillk == 0 ? 0 : fillk == 1 ? 0xff : 256; vh.fill_seed = t.raw();
    Run A = order(n, p.ap, p.ai, cp, -9, true); untouched("ordering", p.ap, p.ai, ap0, ai0); noleak("ordering"); long na = vh.nalloc;
    Lg want = jumbled ? 1 : 0; if (A.ret != want) fail("status", fmt("returned %ld, expected %ld", (long)A.ret, (long)want));
    std::vector<char> seen(n, 0); for (int k = 0; k < n; ++k) if (A.P[k] < 0 || A.P[k] >= n || seen[A.P[k]]++) fail("not a permutation", fmt("entry %d of the ordering is %ld", k, (long)A.P[k]));
    auto stat = [&](int k, double w, const char *name) { if (!(std::fabs(A.Info[k] - w) <= 1e-9 * std::fabs(w))) fail("statistics", fmt("%s reported as %.17g, pattern has %.17g", name, A.Info[k], w)); };
    stat(0, (double)want, "status"); stat(1, n, "dimension"); if (n) { stat(2, (double)S.size(), "entry count"); stat(3, off ? (double)both / off : 1.0, "symmetry"); stat(4, (double)nzd, "diagonal entries"); stat(5, (double)aat, "off-diagonal entries of A+A'"); { double want = 8 * (1.2 * aat + 9.0 * n + (jumbled ? p.ai.size() + n + 1.0 : 0)); if (std::fabs(A.Info[7] - want) > 8 * 1.01) fail("statistics", fmt("memory reported as %.17g bytes, documented as %.17g", A.Info[7], want)); } if (A.Info[6] > 0) c.label("dense rows set aside"); if (A.Info[8] > 0) c.label("garbage collection"); }
    // repeatability: fresh memory contents, result array contents, statistics or not, defaults or none
    if (t.chance(1, 2)) { // control settings with the same documented meaning
        double C1[5]; memcpy(C1, C0, sizeof C1); static const double on[] = {1, -1, 0.5, -1e-300, 7}, off_[] = {-1, -1e-9, -1e9}; if (C1[1] != 0) C1[1] = on[t.below(5)]; if (C1[0] < 0) C1[0] = off_[t.below(3)]; else if (C1[0] * std::sqrt((double)n) < 16) C1[0] = t.chance(1, 2) ? 0 : 15.9 / std::sqrt((double)std::max(n, 1)) * t.uni(0, 1); for (int k = 2; k < 5; ++k) C1[k] = t.chance(1, 2) ? C1[k] : 3;
        Run E = order(n, p.ap, p.ai, C1, 5, true); c.sub++; if (E.ret != A.ret || E.P != A.P) fail("not repeatable", fmt("control %g %g orders differently from control %g %g", C1[0], C1[1], C0[0], C0[1])); noleak("ordering with equivalent control"); c.label("equivalent control"); }
    vh.fill = 256; vh.fill_seed = t.raw() * 7919ul + 1; bool inf2 = t.chance(1, 2); Run B = order(n, p.ap, p.ai, defc ? (t.chance(1, 2) ? nullptr : Control) : Control, (Lg)t.raw(), inf2); c.sub++; if (B.ret != A.ret || B.P != A.P) fail("not repeatable", "second run on the same pattern gives a different ordering"); if (inf2 && memcmp(A.Info, B.Info, sizeof A.Info)) fail("not repeatable", "second run on the same pattern gives different statistics"); noleak("second ordering");
    // the same symmetric pattern stored tidily
    bool sym = both == off; if (sym && jumbled) { Run D = order(n, sorted.ap, sorted.ai, cp, 0, false); c.sub++; if (D.ret != 0) fail("status", fmt("sorted copy returned %ld", (long)D.ret)); if (D.P != A.P) fail("not repeatable", "the sorted copy of a jumbled pattern is ordered differently"); }
    // only the pattern of A+A' matters for which diagonals are stored
    if (!jumbled && n && t.chance(1, 3)) { Pat q; q.ap.push_back(0); for (int j = 0; j < n; ++j) { for (Lg a = p.ap[j]; a < p.ap[j + 1]; ++a) if (p.ai[a] != j) q.ai.push_back(p.ai[a]); q.ap.push_back((Lg)q.ai.size()); } Run D = order(n, q.ap, q.ai, cp, 0, false); c.sub++; if (D.P != A.P) fail("diagonal matters", "dropping the diagonal entries changes the ordering"); }
    if (t.chance(1, 4)) {
        struct Mem { void *(*a)(size_t) = amd_malloc; void (*b)(void *) = amd_free; void *(*d)(size_t, size_t) = amd_calloc; void *(*e)(void *, size_t) = amd_realloc; ~Mem() { amd_malloc = a; amd_free = b; amd_calloc = d; amd_realloc = e; } } keep; amd_malloc = own_malloc; amd_free = own_free; amd_calloc = own_calloc; amd_realloc = own_realloc;
        own_live.clear(); own_bad = own_count = 0; own_left = t.chance(1, 3) ? (long)t.below(6) : -1; bool starved = own_left >= 0; c.label(starved ? "own memory functions, one refuses" : "own memory functions");
        long foreign = vh.nalloc; Run D = order(n, p.ap, p.ai, cp, -9, true); c.sub++; bool hit = starved && own_left < 0; foreign = vh.nalloc - foreign - (own_count - (hit ? 1 : 0));
        if (own_bad) fail("memory functions", fmt("%ld blocks were released or resized that did not come from the installed functions", own_bad)); if (!own_live.empty()) fail("memory functions", fmt("%ld blocks of the installed functions were not released", (long)own_live.size())); if (foreign) fail("memory functions", fmt("%ld blocks were taken from elsewhere than the installed functions", foreign));
        if (hit ? D.ret != -1 || D.Info[0] != -1 : D.ret != A.ret || D.P != A.P) fail("memory functions", fmt("returned %ld with the caller's memory functions, %ld with the standard ones", (long)D.ret, (long)A.ret)); noleak("own memory functions");
    }
    // failed allocations
    if (n && t.chance(1, 2)) { for (int k = 0; k < na; ++k) { bool all = t.chance(1, 4); vh.nalloc = 0; vh.fail_at = all ? -1 : k; vh.fail_from = all ? k : -1; Run D = order(n, p.ap, p.ai, cp, -9, true); c.sub++; vh.fail_at = vh.fail_from = -1; if (D.ret != -1 || D.Info[0] != -1) fail("status", fmt("allocation %d fails: returned %ld, status entry %g", k, (long)D.ret, D.Info[0])); noleak("failed allocation"); untouched("failed allocation", p.ap, p.ai, ap0, ai0); } c.label("failed allocations");
        Run D = order(n, p.ap, p.ai, cp, 3, true); if (D.ret != A.ret || D.P != A.P) fail("not repeatable", "ordering after failed allocations differs"); noleak("ordering after failures"); }
    // invalid variants
    if (t.chance(1, 2)) {
        int w = (int)t.below(8); LV ap = p.ap, ai = p.ai; bool ok = true; const char *what = ""; Lg bad[] = {n, -1, (Lg)n + 5, LONG_MAX, LONG_MIN, 1l << 32};
        switch (w) {
        case 0: what = "row index out of range"; if (ai.empty()) ok = false; else { static const int pl[] = {0, 1, 2}; int q = pl[t.below(3)]; ai[q == 0 ? 0 : q == 1 ? ai.size() - 1 : t.below(ai.size())] = bad[t.below(6)]; } break;
        case 1: what = "first pointer not zero"; if (!n) ok = false; else ap[0] = t.chance(1, 2) ? 1 : -1; break;
        case 2: what = "decreasing pointers"; { int j = n > 1 ? 1 + (int)t.below(n - 1) : 0; if (!j) ok = false; else { if (t.chance(1, 2) || ap[j + 1] >= (Lg)ai.size()) { ap[j] = -1; ok = ap[j - 1] >= 0; } else { ap[j] = ap[j + 1] + 1; } } } break;
        case 3: what = "negative entry count"; if (!n) ok = false; else ap[n] = -1; break;
        case 4: what = "negative dimension"; break;
        default: what = "missing array"; break;
        }
        if (ok) {
            ap.shrink_to_fit(); ai.shrink_to_fit(); LV a1 = ap, i1 = ai; LV P(n, -9); double Info[20]; for (auto &v : Info) v = NEVER; Lg zz = 0; const Lg *ad = ai.empty() ? &zz : ai.data(); Lg *pd = P.empty() ? &zz : P.data(); Lg ret = 0; bool inf = t.chance(1, 2); double *ip = inf ? Info : nullptr; long live0 = vh.nalloc; (void)live0;
            if (w == 4) ret = amd_l_order(-1 - (Lg)t.below(5), ap.data(), ad, pd, cp, ip); else if (w >= 5) ret = amd_l_order(n, w == 5 ? 0 : ap.data(), w == 6 ? 0 : ad, w == 7 ? 0 : pd, cp, ip); else ret = amd_l_order(n, ap.data(), ad, pd, cp, ip);
            c.sub++; if (ret != -2) fail("status", fmt("%s: returned %ld instead of invalid", what, (long)ret)); if (inf && Info[0] != -2) fail("status", fmt("%s: status entry %g instead of invalid", what, Info[0])); noleak(what); untouched(what, ap, ai, a1, i1); c.label(what);
        }
    }
    vh_reset();
}
