#include "graph.hpp"
#ifdef BIG
#include "bigqp.hpp"
#endif
const char *property_rule() { return "permutations and column patterns that are valid or differ from a valid one in up to three places (repeats, out-of-range values including huge and negative ones, swapped or shifted pointers, unsorted and repeated rows, missing arrays, negative and zero dimensions, rectangular shapes), in exactly sized arrays under AddressSanitizer, verdicts compared with the definition; non-trivial when the object has at least two entries"; }
typedef std::vector<qp_int> IV;
static qp_int weird(Tape &t, qp_int n) { qp_int v[] = {n, -1, n + 1, -n, n - 1, 0, LONG_MAX, LONG_MIN, 1l << 32, (1l << 32) + 1, -(1l << 32), 1l << 31, n / 2, 2 * n}; return v[t.below(14)]; }
void property(Tape &t, Ctx &c)
{
    int what = t.pick({1, 1, 1}); long n = t.chance(1, 20) ? t.dim(0, 300) : t.range(0, 9); qp_int zz = 0;
#ifdef BIG
    n = big_dim(t);
#endif
    if (what == 0) {
        IV P;
#ifdef BIG
        { pbt::Rng r(t.raw()); P.resize(n); for (long i = 0; i < n; ++i) P[i] = i; if (t.chance(4, 5)) for (long i = n; i > 1; --i) std::swap(P[i - 1], P[r.below(i)]); }
#else
        P = gen_perm(t, (int)n);
#endif
         int k = t.pick({2, 2, 1, 1}); for (int a = 0; a < k && n; ++a) switch (t.pick({2, 2, 1})) { case 0: P[t.below(n)] = P[t.below(n)]; break; case 1: P[t.chance(1, 2) ? n - 1 : t.below(n)] = weird(t, n); break; default: std::swap(P[t.below(n)], P[t.below(n)]); } P.shrink_to_fit();
        IV F(n); { pbt::Rng r(t.raw()); for (auto &v : F) v = r.below(2) ? (qp_int)(int)r.next() : (qp_int)r.below(4) - 1; } F.shrink_to_fit(); std::set<qp_int> s(P.begin(), P.end()); bool ok = s.size() == (size_t)n && (!n || (*s.begin() == 0 && *s.rbegin() == n - 1)); IV P0 = P; int mis = t.pick({8, 1, 1, 1, 1});
        qp_int nn = n; qp_int *pp = n ? P.data() : &zz, *ff = n ? F.data() : &zz; if (mis == 1) { pp = 0; ok = true; } if (mis == 2) { ff = 0; ok = false; } if (mis == 3) { nn = -1 - (qp_int)t.below(3); ok = false; } if (mis == 4) { pp = 0; ff = 0; ok = false; }
        c.note("permutation check, n=%ld missing=%d", (long)nn, mis); c.vec("P", P0); c.vec("work", F); c.label(ok ? "permutation accepted" : "permutation rejected"); c.nontrivial = n > 1;
        qp_int r = LDL_valid_perm(nn, pp, ff); if ((r != 0) != ok || (r != 0 && r != 1)) fail("permutation verdict", fmt("returned %ld, vector is %s permutation", (long)r, ok ? "a" : "not a")); if (P != P0) fail("input-modified", "permutation"); return;
    }
    long rows = what == 1 ? n : t.pick({3, 1}) ? t.range(0, 9) : n;
#ifdef BIG
    if (what != 1) rows = t.chance(1, 2) ? big_dim(t) : t.range(0, 9);
#endif
    pbt::Rng r(t.raw()); IV ap{0}, ai; for (long j = 0; j < n; ++j) { long k = rows ? (long)r.below(std::min<long>(rows, 5) + 1) : 0; std::set<qp_int> s; while ((long)s.size() < k) s.insert((qp_int)r.below(rows)); ai.insert(ai.end(), s.begin(), s.end()); ap.push_back((qp_int)ai.size()); }
    int k = t.pick({2, 3, 2, 1}); qp_int nz = (qp_int)ai.size();
    for (int a = 0; a < k; ++a) switch (t.pick({3, 2, 2, 2, 1})) {
        case 0: if (nz) ai[t.pick({2, 1, 1}) == 0 ? t.below(nz) : t.chance(1, 2) ? nz - 1 : 0] = weird(t, rows); break;
        case 1: if (nz > 1) { size_t i = t.below(nz - 1); std::swap(ai[i], ai[i + 1]); } break;
        case 2: if (nz > 1) { size_t i = t.below(nz - 1); ai[i + 1] = ai[i]; } break;
        case 3: { size_t j = t.pick({3, 1, 1}) == 0 ? t.below(n + 1) : t.chance(1, 2) ? (size_t)n : 0; static const int dl[] = {1, -1, 2, -2, -100}; ap[j] = std::min<qp_int>(nz, ap[j] + dl[t.below(5)]); break; }
        default: if (n > 1) { size_t j = 1 + t.below(n - 1); ap[j] = t.range(0, nz); } break;
    }
    if (t.chance(1, 2)) { bool mono = ap[0] == 0; for (long j = 0; j < n; ++j) mono &= ap[j] <= ap[j + 1]; if (mono) { ai.resize(ap[n]); } } // nothing beyond the last entry
    ap.shrink_to_fit(); ai.shrink_to_fit(); IV ap0 = ap, ai0 = ai; int mis = t.pick({8, 1, 1, 1, what == 2 ? 1u : 0u}); bool ok = ap[0] == 0, jum = false; for (long j = 0; j < n; ++j) { ok &= ap[j] <= ap[j + 1]; } if (ok) for (long j = 0; j < n; ++j) for (qp_int a = ap[j]; a < ap[j + 1]; ++a) { ok &= ai[a] >= 0 && ai[a] < rows; jum |= a > ap[j] && ai[a] <= ai[a - 1]; }
    IV pad = ai; qp_int *pi = ai.empty() ? (qp_int *)malloc(0) : ai.data(), *freeme = ai.empty() ? pi : 0; qp_int *pp = ap.data(), *qi = pi; qp_int nn = n, nr = rows; if (mis == 1) pp = 0; if (mis == 2) qi = 0; if (mis == 3) nn = -1 - (qp_int)t.below(3); if (mis == 4) nr = -1; if (mis) ok = false;
    c.note("%s, %ld rows %ld columns, missing=%d", what == 1 ? "factorisation's matrix check" : "ordering's matrix check", (long)nr, (long)nn, mis); c.vec("Ap", ap0); c.vec("Ai", ai0); c.nontrivial = nz > 1; c.label(std::string(what == 1 ? "factorisation " : "ordering ") + (!ok ? "rejects" : jum ? "accepts jumbled" : "accepts"));
    if (what == 1) { qp_int g = LDL_valid_matrix(nn, pp, qi); if (g != (ok ? 1 : 0)) fail("matrix verdict", fmt("factorisation's check returned %ld, pattern is %s", (long)g, ok ? "valid" : "invalid")); }
    else { Lg g = amd_l_valid(nr, nn, (Lg *)pp, (Lg *)qi), w = !ok ? -2 : jum ? 1 : 0; if (g != w) fail("matrix verdict", fmt("ordering's check returned %ld, expected %ld", (long)g, (long)w)); }
    free(freeme); if (ap != ap0 || ai != ai0) fail("input-modified", "pattern");
}
