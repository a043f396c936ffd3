// Sparse patterns for the ordering checks: generators and a plain symbolic elimination.
#pragma once
#include "qp.hpp"
extern "C" {
#include "hooks.h"
SuiteSparse_long amd_l_order(SuiteSparse_long, const SuiteSparse_long *, const SuiteSparse_long *, SuiteSparse_long *, double *, double *);
SuiteSparse_long amd_l_valid(SuiteSparse_long, SuiteSparse_long, const SuiteSparse_long *, const SuiteSparse_long *);
void amd_l_defaults(double *);
extern void *(*amd_malloc)(size_t); extern void (*amd_free)(void *);
}
typedef SuiteSparse_long Lg; typedef std::vector<Lg> LV;
typedef std::vector<std::vector<int>> Adj; // symmetric, sorted, without the diagonal
struct Graph { int n = 0; std::vector<std::pair<int, int>> e; // undirected edges
    void add(int a, int b) { if (a != b && a >= 0 && b >= 0 && a < n && b < n) e.push_back({std::min(a, b), std::max(a, b)}); }
    void uniq() { std::sort(e.begin(), e.end()); e.erase(std::unique(e.begin(), e.end()), e.end()); }
    void relabel(const std::vector<int> &w) { for (auto &x : e) { int a = w[x.first], b = w[x.second]; x = {std::min(a, b), std::max(a, b)}; } uniq(); }
    Adj adj() const { Adj A(n); for (auto &x : e) { A[x.first].push_back(x.second); A[x.second].push_back(x.first); } for (auto &r : A) std::sort(r.begin(), r.end()); return A; } };
struct Pat { LV ap, ai; };
// compressed columns of the graph: both triangles, upper, lower, or a random choice per edge
inline Pat pattern(const Graph &g, int how, int diag, pbt::Rng &r)
{
    std::vector<LV> col(g.n); for (auto &x : g.e) { int a = x.first, b = x.second; int w = how == 3 ? (int)r.below(3) : how; if (w != 2) col[b].push_back(a); if (w != 1) col[a].push_back(b); }
    for (int i = 0; i < g.n; ++i) if (diag == 2 ? r.below(2) : diag) col[i].push_back(i);
    Pat p; p.ap.push_back(0); for (auto &c : col) { std::sort(c.begin(), c.end()); p.ai.insert(p.ai.end(), c.begin(), c.end()); p.ap.push_back((Lg)p.ai.size()); } p.ap.shrink_to_fit(); p.ai.shrink_to_fit(); return p;
}
struct Cost { double lnz = 0, ldl = 0, lu = 0, dmax = 0; };
// column counts of the factor of the graph under an ordering (order[k] is the kth pivot)
inline Cost symbolic_cost(const Graph &g, const std::vector<int> &order)
{
    int n = g.n; std::vector<int> pos(n), par(n, -1), flag(n, -1); std::vector<double> cnt(n, 0); for (int k = 0; k < n; ++k) pos[order[k]] = k; std::vector<std::vector<int>> up(n); for (auto &x : g.e) { int a = pos[x.first], b = pos[x.second]; up[std::max(a, b)].push_back(std::min(a, b)); }
    for (int k = 0; k < n; ++k) { flag[k] = k; for (int i : up[k]) while (flag[i] != k) { if (par[i] < 0) par[i] = k; cnt[i]++; flag[i] = k; i = par[i]; } }
    Cost c; for (double v : cnt) { c.lnz += v; c.ldl += v * (v + 1) / 2; c.lu += v * v; c.dmax = std::max(c.dmax, v + 1); } return c;
}
// exact minimum degree by plain elimination on bit rows (ties: lowest label after the given relabelling)
inline std::vector<int> exact_min_degree(const Graph &g)
{
    int n = g.n, w = (n + 63) / 64; std::vector<uint64_t> B((size_t)n * w, 0); auto set = [&](int a, int b) { B[(size_t)a * w + b / 64] |= 1ull << (b % 64); }; auto clr = [&](int a, int b) { B[(size_t)a * w + b / 64] &= ~(1ull << (b % 64)); };
    for (auto &x : g.e) { set(x.first, x.second); set(x.second, x.first); } std::vector<char> dead(n, 0); std::vector<int> deg(n, 0), ord; for (int i = 0; i < n; ++i) for (int k = 0; k < w; ++k) deg[i] += __builtin_popcountll(B[(size_t)i * w + k]);
    for (int s = 0; s < n; ++s) {
        int best = -1; for (int i = 0; i < n; ++i) if (!dead[i] && (best < 0 || deg[i] < deg[best])) best = i;
        dead[best] = 1; ord.push_back(best); std::vector<int> nb; for (int k = 0; k < w; ++k) for (uint64_t v = B[(size_t)best * w + k]; v; v &= v - 1) nb.push_back(k * 64 + __builtin_ctzll(v));
        for (int a : nb) { for (int k = 0; k < w; ++k) B[(size_t)a * w + k] |= B[(size_t)best * w + k]; clr(a, a); clr(a, best); deg[a] = 0; for (int k = 0; k < w; ++k) deg[a] += __builtin_popcountll(B[(size_t)a * w + k]); }
    }
    return ord;
}
enum { G_RANDOM, G_TREE, G_FOREST, G_STAR, G_BAND, G_GRID, G_ARROW, G_BLOCKS, G_MPC, G_HUBS, G_DENSE, G_EMPTY, G_KINDS };
inline const char *gname(int k) { static const char *s[] = {"random", "tree", "forest", "star", "band", "grid", "arrow", "blocks", "control KKT", "hubs", "dense", "empty"}; return s[k]; }
// natural ordering of the generated graph is the "known good" one where there is one
inline Graph gen_graph(int kind, int n, pbt::Rng &r)
{
    Graph g; g.n = n;
    switch (kind) {
    case G_RANDOM: { int k = (int)(n * (1 + r.below(4)) / 2); for (int i = 0; i < k; ++i) g.add((int)r.below(n), (int)r.below(n)); break; }
    case G_TREE: for (int i = 0; i + 1 < n; ++i) g.add(i, i + 1 + (int)r.below(std::min(n - i - 1, r.below(2) ? n : 3))); break;
    case G_FOREST: for (int i = 0; i + 1 < n; ++i) if (r.below(5)) g.add(i, i + 1 + (int)r.below(n - i - 1)); break;
    case G_STAR: for (int i = 0; i + 1 < n; ++i) g.add(i, n - 1); break;
    case G_BAND: { int b = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) for (int j = 1; j <= b; ++j) g.add(i, i + j); break; }
    case G_GRID: { int w = std::max(1, (int)std::sqrt((double)n) - (int)r.below(2)); bool nine = r.below(3) == 0; for (int i = 0; i < n; ++i) { if ((i + 1) % w) g.add(i, i + 1); g.add(i, i + w); if (nine && (i + 1) % w) g.add(i, i + w + 1); } break; }
    case G_ARROW: { int b = 1 + (int)r.below(3); int h = std::min(n, b); for (int i = 0; i < n; ++i) for (int j = n - h; j < n; ++j) g.add(i, j); int bb = (int)r.below(2); for (int i = 0; i < n - h; ++i) for (int j = 1; j <= bb; ++j) if (i + j < n - h) g.add(i, i + j); break; }
    case G_BLOCKS: for (int i = 0; i < n;) { int k = 1 + (int)r.below(8); for (int a = i; a < std::min(n, i + k); ++a) for (int b = i; b < a; ++b) g.add(a, b); i += k; } break;
    case G_MPC: { // stages: state, input, multiplier, bounds
        int nx = 1 + (int)r.below(4), nu = 1 + (int)r.below(2), sz = 2 * nx + nu + nx + nu; for (int s = 0; s * sz < n; ++s) { int o = s * sz, X = o, U = o + nx, Y = U + nu, Z = Y + nx;
            for (int i = 0; i < nx; ++i) { for (int j = 0; j < nx; ++j) g.add(Y + i, X + j); for (int j = 0; j < nu; ++j) g.add(Y + i, U + j); g.add(Y + i, X + sz + i); }
            for (int i = 0; i < nx; ++i) g.add(Z + i, X + i); for (int i = 0; i < nu; ++i) g.add(Z + nx + i, U + i); } break; }
    case G_HUBS: { int hb = 1 + (int)r.below(3); for (int i = 0; i < n; ++i) { if (i + 1 < n && r.below(4)) g.add(i, i + 1); for (int j = 0; j < hb; ++j) if (r.below(4)) g.add(i, n - 1 - j); } break; }
    case G_DENSE: for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) g.add(i, j); break;
    default: break;
    }
    g.uniq(); return g;
}
inline std::vector<int> shuffle(int n, pbt::Rng &r) { std::vector<int> w(n); for (int i = 0; i < n; ++i) w[i] = i; for (int k = n; k > 1; --k) std::swap(w[k - 1], w[(int)r.below(k)]); return w; }
