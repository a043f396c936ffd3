#include "graph.hpp"
#ifdef BIG
#include "bigqp.hpp"
#endif
const char *property_rule() { return "structured graphs under random relabelling and storage (forests, chains, stars, bands, grids, arrows, dense blocks, control-problem KKT patterns, hubs, random graphs; dimension 1 to 1200; also KKT matrices inside set-up), ordered with generated control settings; the factor found by the symbolic analysis against the family's known good ordering, against plain exact minimum degree (single patterns loosely, totals over a batch of patterns tightly) and against the ordering's own predictions; non-trivial when the factor has fill or the graph is a forest with an edge"; }
struct Ord { std::vector<int> p; double Info[20]; long lnz; };
static Ord order(const Graph &g, const Pat &p, double *Control, bool jumbled)
{
    Ord o; int n = g.n; LV P(n, -1); Lg z = 0; for (auto &v : o.Info) v = 0; Lg ret = amd_l_order(n, p.ap.data(), p.ai.empty() ? &z : p.ai.data(), P.data(), Control, o.Info); if (ret != (jumbled ? 1 : 0)) fail("status", fmt("ordering returned %ld", (long)ret));
    std::vector<char> s(n, 0); for (Lg v : P) { if (v < 0 || v >= n || s[v]++) fail("not a permutation", ""); o.p.push_back((int)v); }
    // the factor the library's symbolic analysis finds
    Graph full = g; (void)full; LV Lp(n + 1), Par(n), Lnz(n), Flag(n), Pinv(n); pbt::Rng r(1); Pat q = pattern(g, 0, 1, r); LDL_symbolic(n, (qp_int *)q.ap.data(), q.ai.empty() ? (qp_int *)&z : (qp_int *)q.ai.data(), (qp_int *)Lp.data(), (qp_int *)Par.data(), (qp_int *)Lnz.data(), (qp_int *)Flag.data(), (qp_int *)P.data(), (qp_int *)Pinv.data());
    o.lnz = (long)Lp[n]; return o;
}
// columns out of order, repeated entries; true when something was really moved
static bool scramble(Pat &p, pbt::Rng &r)
{
    LV ap{0}, ai; bool jum = false; int rep = (int)r.below(3), mix = rep == 0 || r.below(2);
    for (size_t j = 0; j + 1 < p.ap.size(); ++j) { LV col(p.ai.begin() + p.ap[j], p.ai.begin() + p.ap[j + 1]); if (rep) for (size_t k = col.size(), a = 0; a < k; ++a) if (r.below(6) == 0) col.push_back(col[a]); if (mix) for (size_t k = col.size(); k > 1; --k) std::swap(col[k - 1], col[r.below(k)]); else std::sort(col.begin(), col.end()); for (size_t a = 1; a < col.size(); ++a) jum |= col[a] <= col[a - 1]; ai.insert(ai.end(), col.begin(), col.end()); ap.push_back((Lg)ai.size()); }
    p.ap = ap; p.ai = ai; p.ap.shrink_to_fit(); p.ai.shrink_to_fit(); return jum;
}
// the ordering as the solver uses it: the factor an instance holds after set-up
static void through_setup(Tape &t, Ctx &c)
{
    pbt::Rng r(t.raw()); bool mpc = t.chance(2, 3); int n, m, p; QPD q; auto v = [&]() { return 0.25 + (double)r.below(8) / 4; };
    if (mpc) { int N = (int)t.range(2, 14), nx = (int)t.range(1, 3), nu = 1, sz = nx + nu; n = N * sz; p = (N - 1) * nx; m = 2 * N * nu; q.alloc(n, m, p); for (int k = 0; k < N; ++k) { for (int i = 0; i < sz; ++i) q.Pe(k * sz + i, k * sz + i) = v(); if (k + 1 < N) for (int i = 0; i < nx; ++i) { for (int j = 0; j < sz; ++j) q.Ae(k * nx + i, k * sz + j) = v(); q.Ae(k * nx + i, (k + 1) * sz + i) = -1; } for (int i = 0; i < nu; ++i) { q.Ge(2 * (k * nu + i), k * sz + nx + i) = 1; q.Ge(2 * (k * nu + i) + 1, k * sz + nx + i) = -1; } } }
    else { n = (int)t.range(2, 40); m = (int)t.range(1, 60); p = (int)t.range(0, n / 3); q.alloc(n, m, p); for (int i = 0; i < n; ++i) { q.Pe(i, i) = 1 + v(); if (r.below(4) == 0) { int j = (int)r.below(n); if (j != i) q.Pe(i, j) = q.Pe(j, i) = 0.01; } } for (int i = 0; i < m; ++i) for (int k = 0; k < 1 + (int)r.below(3); ++k) q.Ge(i, (int)r.below(n)) = v(); for (int i = 0; i < p; ++i) for (int k = 0; k < 2; ++k) q.Ae(i, (int)r.below(n)) = v(); }
    for (auto &x : q.h) x = 1; Inst I; int ifc = t.pick({2, 1, 1}); I.prepare(q, ifc); I.setup(); c.label("through set-up"); describe(c, q);
    int K = n + m + p; Graph g; g.n = K; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (q.Pe(i, j) != 0 || q.Pe(j, i) != 0) g.add(i, j); for (int j = 0; j < n; ++j) { for (int i = 0; i < p; ++i) if (q.Ae(i, j) != 0) g.add(j, n + i); for (int i = 0; i < m; ++i) if (q.Ge(i, j) != 0) g.add(j, n + p + i); } g.uniq();
    double got = (double)I.q->kkt->Lp[K]; Cost k = symbolic_cost(g, exact_min_degree(g)); c.nontrivial = got > (double)g.e.size(); c.metric("through set-up: factor / min degree", got / (k.lnz + 4));
    if (I.q->stats->AMD_RESULT != 0 && I.q->stats->AMD_RESULT != 1) fail("status", fmt("ordering status %ld", (long)I.q->stats->AMD_RESULT));
    if (got > 1.2 * k.lnz + 8) fail("fill", fmt("set-up: exact minimum degree on the KKT matrix gives %g entries, the instance's factor has %g", k.lnz, got));
}
void property(Tape &t, Ctx &c)
{
    vh_reset();
#ifdef BIG
    bool batch = false;
#else
    if (t.chance(1, 5)) { through_setup(t, c); return; } bool batch = t.chance(1, 6);
#endif
     double Control[5]; amd_l_defaults(Control); bool ctl = t.chance(1, 3); if (ctl) { static const double al[] = {10, -1, 1e9, 20, 0, 0.5}; Control[0] = al[t.below(6)]; Control[1] = t.chance(1, 3) ? 0 : 1; }
    int kind = t.pick({4, 2, 2, 1, 3, 3, 3, 3, 4, 3, 1}); int nb = batch ? 24 : 1; double tl = 0, tm = 0; pbt::Rng r(t.raw()); int n0 = t.chance(1, 12) ? (int)t.range(1, 1200) : t.chance(1, 3) ? (int)t.range(1, 200) : (int)t.range(1, 50); if (batch || kind == G_DENSE) n0 = std::min(n0, 120); int how = t.pick({2, 1, 1, 2}), dg = (int)t.below(3); bool scr = t.chance(1, 4);
    c.label(batch ? std::string("batch of ") + gname(kind) : gname(kind)); if (batch && n0 < 20) n0 += 20;
#ifdef BIG
    if (kind == G_DENSE || kind == G_RANDOM) kind = G_BAND; n0 = (int)big_dim(t); if (kind == G_GRID) n0 = std::min(n0, 33000); c.label("very large"); if ((kind == G_STAR || kind == G_HUBS || kind == G_ARROW) && (Control[0] < 0 || Control[0] > 100)) Control[0] = 10; // else quadratic
#endif
    for (int b = 0; b < nb; ++b) {
        int n = batch ? n0 - (int)r.below(10) : n0; Graph g = gen_graph(kind, n, r); auto w = t.chance(5, 6) || batch ? shuffle(n, r) : [&] { std::vector<int> i(n); for (int k = 0; k < n; ++k) i[k] = k; return i; }(); Graph nat = g; g.relabel(w);
        Pat p = pattern(g, how, dg, r); if (!batch || b == 0) { c.note("%s%s, n=%d, %zu edges, control %g %g", batch ? "batch of " : "", gname(kind), n, g.e.size(), Control[0], Control[1]); c.vec("Ap", p.ap); c.vec("Ai", p.ai); }
        bool usedctl = ctl || t.chance(1, 2), jum = false; if (scr) jum = scramble(p, r); Ord o = order(g, p, usedctl ? Control : nullptr, jum); if (jum) c.label("jumbled columns"); c.sub++; Cost k = symbolic_cost(g, o.p); if (k.lnz != o.lnz) fail("symbolic", fmt("analysis finds %ld entries below the diagonal, elimination %g", o.lnz, k.lnz));
        { double al = (ctl || usedctl) ? Control[0] : 10; long T = al < 0 ? n - 2 : (long)(al * std::sqrt((double)n)); T = std::min<long>(n, std::max<long>(16, T)); std::vector<int> dgr(n, 0); for (auto &e : g.e) dgr[e.first]++, dgr[e.second]++; long nd = 0; for (int v : dgr) nd += v > T; if (o.Info[6] != (double)nd) fail("dense rows", fmt("%g rows reported as set aside, %ld have more than %ld neighbours", o.Info[6], nd, T)); for (int k = 0; k < n; ++k) if ((dgr[o.p[k]] > T) != (k >= n - nd)) fail("dense rows", fmt("row %d with %d neighbours (limit %ld) is number %d of %d in the ordering, %ld rows are set aside to come last", o.p[k], dgr[o.p[k]], T, k, n, nd)); }
        bool nd = o.Info[6] == 0; if (!nd) c.label("dense rows set aside"); double E = (double)g.e.size(); c.nontrivial |= k.lnz > E;
        bool forest = kind == G_TREE || kind == G_FOREST || kind == G_STAR || E < 1.5;
        if (forest && nd) { c.nontrivial |= E > 0; if (k.lnz != E) fail("fill on a forest", fmt("graph is a forest with %g edges, factor has %g entries", E, k.lnz)); if (o.Info[9] != E) c.label("forest predicted larger"); }
        { // predictions are upper bounds, also when rows are set aside (they are then taken as full)
            auto ub = [&](int id, double actual, const char *name) { if (!(o.Info[id] >= actual)) fail("prediction", fmt("%s predicted as %.17g, the factor has %.17g", name, o.Info[id], actual)); };
            ub(9, k.lnz, "entries of L"); ub(10, k.lnz, "divisions"); ub(11, k.ldl, "LDL multiply-subtracts"); ub(12, k.lu, "LU multiply-subtracts"); ub(13, k.dmax, "largest column"); if (k.lnz > 0) c.metric(std::string("predicted / actual entries of L, ") + gname(kind), o.Info[9] / k.lnz);
        }
        if (std::fabs(o.Info[10] - o.Info[9]) > 1e-9 * o.Info[9] || std::fabs(2 * o.Info[11] - o.Info[12] - o.Info[9]) > 1e-9 * (o.Info[12] + o.Info[9])) fail("prediction", fmt("inconsistent counts: %g entries, %g divisions, %g LDL and %g LU multiply-subtracts", o.Info[9], o.Info[10], o.Info[11], o.Info[12]));
        if (o.Info[13] > n) fail("prediction", fmt("largest column %g for dimension %d", o.Info[13], n));
        if (batch) { if (nd) { Cost m = symbolic_cost(g, exact_min_degree(g)); tl += k.lnz; tm += m.lnz; } continue; }
        double good = -1; if (kind == G_BAND || kind == G_GRID || kind == G_ARROW || kind == G_BLOCKS || kind == G_MPC || kind == G_HUBS) { std::vector<int> id(n); for (int i = 0; i < n; ++i) id[w[i]] = i; std::vector<int> ord(n); for (int i = 0; i < n; ++i) ord[i] = w[i]; good = symbolic_cost(g, ord).lnz; }
        if (kind == G_BLOCKS && nd && k.lnz != E) fail("fill on blocks", fmt("blocks have %g entries, factor %g", E, k.lnz));
        bool low = usedctl && Control[0] >= 0 && Control[0] < 10 && !nd; if (!low && good > 0 && k.lnz > 1.15 * good + 6) fail("fill", fmt("%s: the known good ordering gives %g entries, the built-in one %g", gname(kind), good, k.lnz));
        if (good >= 0 && good > 0) c.metric(std::string("factor / good, ") + gname(kind) + (n > 60 ? " large" : ""), k.lnz / (good + 4));
        if (n <= 400 && nd) { Cost m = symbolic_cost(g, exact_min_degree(g)); if (k.lnz > 1.2 * m.lnz + 8) fail("fill", fmt("%s: exact minimum degree gives %g entries, the built-in ordering %g", gname(kind), m.lnz, k.lnz)); if (m.lnz > 0) c.metric(std::string("factor / min degree, ") + gname(kind) + (n > 60 ? " large" : ""), k.lnz / (m.lnz + 4)); }
    }
    if (batch && tl > (kind == G_MPC ? 1.10 : 1.04) * tm + 6) fail("fill", fmt("%s: over the batch exact minimum degree gives %g entries, the built-in ordering %g", gname(kind), tm, tl));
    if (batch && tm > 0) { c.metric(std::string("batch factor / min degree, ") + gname(kind), tl / (tm + 4)); }
    vh_reset();
}
