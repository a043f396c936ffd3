#include "pbt.hpp"
#include "graph.hpp"
#include <cstdarg>
#include <map>
extern "C" { extern int (*amd_printf)(const char *, ...); void amd_l_control(double *); void amd_l_info(double *); }
const char *property_rule() { return "the ordering's printed reports (settings and results) for control arrays of every kind (absent, defaults, random, negative and huge settings) and for statistics from real runs (accepted, jumbled, invalid, out of memory, with dense rows) and made-up ones with unknown entries, with and without a print function; non-trivial when at least five numbers are printed"; }
static std::string out; static int sink(const char *f, ...) { va_list a; va_start(a, f); char b[4096]; int k = vsnprintf(b, sizeof b, f, a); va_end(a); out += b; return k; }
static std::vector<std::string> lines() { std::vector<std::string> r; size_t p = 0; while (p < out.size()) { size_t e = out.find('\n', p); if (e == std::string::npos) e = out.size(); r.push_back(out.substr(p, e - p)); p = e + 1; } return r; }
// the number after the last colon of the only line that contains all the words; NAN when there is no such line
static double number(const std::vector<std::string> &L, std::initializer_list<const char *> words, bool &many)
{
    int hits = 0; double v = NAN; for (auto &l : L) { size_t k = l.rfind(':'); if (k == std::string::npos) continue; bool all = true; for (auto w : words) all &= l.find(w) < k; if (!all) continue; char *e; double x = strtod(l.c_str() + k + 1, &e); if (e == l.c_str() + k + 1) continue; ++hits; v = x; }
    many = hits > 1; return v;
}
static void expect(Ctx &c, const std::vector<std::string> &L, std::initializer_list<const char *> words, double want, bool shown, const char *what, double tol = 0)
{
    bool many; double v = number(L, words, many); if (many) fail("report", fmt("%s is printed more than once", what));
    if (!shown) { if (v == v) fail("report", fmt("%s is unknown, yet %.17g is printed", what, v)); return; }
    if (v != v) fail("report", fmt("%s = %.17g is not printed", what, want)); if (std::fabs(v - want) > tol * std::fabs(want)) fail("report", fmt("%s = %.17g is printed as %.17g", what, want, v)); c.metric("numbers checked in one case", 1); ++c.sub;
}
static bool has(const char *w) { return out.find(w) != std::string::npos; }
static int allocs_left; static void *lim_malloc(size_t n) { return allocs_left-- > 0 ? v_malloc(n) : nullptr; }
static void check_control(Ctx &c, const double *C)
{
    auto L = lines(); double alpha = C ? C[0] : 10; bool agg = C ? C[1] != 0 : true, many;
    double v = number(L, {"dense row parameter"}, many); if (!(v == v) || std::fabs(v - alpha) > 1e-5 * std::fabs(alpha)) fail("settings", fmt("dense row parameter %g is printed as %g", alpha, v));
    if (alpha < 0 ? !has("no rows treated as dense") || has("considered") : has("no rows treated as dense") || !has("placed last")) fail("settings", fmt("text for dense row parameter %g: %s", alpha, out.c_str()));
    if (alpha >= 0) { size_t k = out.find("max ("); double w = k == std::string::npos ? NAN : strtod(out.c_str() + k + 5, 0); if (!(std::fabs(w - alpha) <= 1e-5 * std::fabs(alpha))) fail("settings", fmt("the limit names parameter %g instead of %g", w, alpha)); }
    bool yes = false, no = false; for (auto &l : L) if (l.find("aggressive absorption") != std::string::npos) { yes |= l.find("yes") != std::string::npos; no |= l.find("no", l.rfind(':')) != std::string::npos; } if (yes != agg || no == agg) fail("settings", fmt("aggressive absorption is %s, printed: %s", agg ? "on" : "off", out.c_str()));
    v = number(L, {"size of AMD integer"}, many); if (v != sizeof(SuiteSparse_long)) fail("settings", fmt("integer size printed as %g", v)); c.sub++;
}
void property(Tape &t, Ctx &c)
{
    vh_reset(); struct Restore { int (*p)(const char *, ...) = amd_printf; void *(*m)(size_t) = amd_malloc; ~Restore() { amd_printf = p; amd_malloc = m; } } keep; amd_printf = t.chance(1, 12) ? nullptr : sink; bool quiet = !amd_printf;
    double C[5], *pC = C; for (auto &v : C) v = 0;
    switch (t.pick({3, 2, 2})) {
    case 0: for (auto &v : C) v = 777; amd_l_defaults(C); if (C[0] != 10 || C[1] != 1) fail("defaults", fmt("default settings %g %g", C[0], C[1])); for (int i = 2; i < 5; ++i) if (C[i] != 0) fail("defaults", fmt("unused setting %d is %g", i, C[i])); amd_l_defaults(nullptr); break;
    case 1: pC = nullptr; break;
    default: { static const double al[] = {10, 0, -1, 0.5, 1e9, 3, -0.001, 1e-3, 100, 25.5}; C[0] = t.chance(1, 3) ? t.val() : al[t.below(10)]; static const double ag[] = {1, 0, -1, 0.5, 7, 1e-300}; C[1] = ag[t.below(6)]; for (int i = 2; i < 5; ++i) C[i] = t.val(); } }
    double C0[5]; memcpy(C0, C, sizeof C); out.clear(); amd_l_control(pC); if (memcmp(C0, C, sizeof C)) fail("modified", "the settings were changed by printing them");
    c.note("settings %s %g %g", pC ? "given" : "absent", C[0], C[1]);
    if (quiet) { if (!out.empty()) fail("silent", "printed without a print function"); } else check_control(c, pC);
    // results
    double I[20]; for (auto &v : I) v = -1; int kind = t.pick({4, 1, 1, 3, 1}); const char *names[] = {"a run", "an invalid pattern", "no memory", "made-up statistics", "no statistics"}; c.label(names[kind]);
    if (kind <= 2) {
        pbt::Rng r(t.raw()); int n = (int)t.range(0, t.chance(1, 8) ? 300 : 25); std::vector<SuiteSparse_long> ap{0}, ai, P(n + 1); int dens = (int)t.range(0, 6);
        for (int j = 0; j < n; ++j) { std::set<long> col; int k = n ? (int)r.below(dens + 1) : 0; if (r.below(40) == 0) k = n; for (int a = 0; a < k; ++a) col.insert((long)r.below(n)); if (k == n) for (int i = 0; i < n; ++i) col.insert(i); std::vector<long> v(col.begin(), col.end()); if (t.chance(1, 20)) std::reverse(v.begin(), v.end()); for (long i : v) ai.push_back(i); ap.push_back((long)ai.size()); }
        if (kind == 1 && !ai.empty()) ai[r.below(ai.size())] = n; ai.reserve(1); if (kind == 2) { allocs_left = (int)t.below(3); amd_malloc = lim_malloc; }
        long st = amd_l_order(n, ap.data(), ai.data(), P.data(), pC, I); c.note("n=%d, %zu entries, status %ld", n, ai.size(), st); if (st != (long)I[0]) fail("status", fmt("returned %ld, Info has %g", st, I[0])); c.label(fmt("status %ld", st)); amd_malloc = keep.m;
    } else if (kind == 3) { static const double st[] = {0, 1, -1, -2, 2, 5, -3}; I[0] = st[t.below(7)]; for (int i = 1; i < 20; ++i) switch (t.pick({6, 1, 1})) { case 0: I[i] = t.chance(1, 2) ? (double)t.range(0, 100000) : std::ldexp(1.0 + (double)t.below(1000), (int)t.range(0, 70)); break; case 1: I[i] = 0; break; default: I[i] = -1; } I[3] = t.chance(1, 6) ? -1 : (double)t.below(10001) / 10000; }
    double I0[20]; memcpy(I0, I, sizeof I); out.clear(); amd_l_info(kind == 4 ? nullptr : I); if (memcmp(I0, I, sizeof I)) fail("modified", "the statistics were changed by printing them"); c.vec("Info", std::vector<double>(I, I + 14));
    if (quiet) { if (!out.empty()) fail("silent", "printed without a print function"); return; }
    auto L = lines(); if (kind == 4) { if (has("status:")) fail("report", "a status is printed without statistics"); return; }
    const char *want = I[0] == 0 ? "OK" : I[0] == 1 ? "OK, but jumbled" : I[0] == -1 ? "out of memory" : I[0] == -2 ? "invalid matrix" : "unknown"; std::string got; for (auto &l : L) { size_t k = l.find("status:"); if (k != std::string::npos) { got = l.substr(k + 7); while (!got.empty() && got[0] == ' ') got.erase(0, 1); while (!got.empty() && got.back() == ' ') got.pop_back(); } }
    if (got != want) fail("report", fmt("status %g is printed as '%s'", I[0], got.c_str()));
    auto nn = [&](int i) { return I[i] >= 0; }; long s0 = c.sub;
    expect(c, L, {"dimension of A"}, I[1], nn(1), "the dimension"); expect(c, L, {"nz, number of nonzeros in A"}, I[2], nn(2), "the number of entries");
    { bool many; double v = number(L, {"symmetry of A"}, many); if (nn(3) ? !(std::fabs(v - I[3]) <= 0.50001e-4) : v == v) fail("report", fmt("symmetry %g is printed as %g", I[3], v)); }
    expect(c, L, {"nonzeros on diagonal"}, I[4], nn(4), "the number of diagonal entries"); expect(c, L, {"pattern of A+A'"}, I[5], nn(5), "the number of entries of A+A'"); expect(c, L, {"# dense rows"}, I[6], nn(6), "the number of dense rows");
    expect(c, L, {"memory used"}, I[7], nn(7), "the memory used"); expect(c, L, {"memory compactions"}, I[8], nn(8), "the number of compactions");
    expect(c, L, {"nonzeros in L (excluding"}, I[9], nn(9), "the entries of L"); expect(c, L, {"nonzeros in L (including"}, I[1] + I[9], nn(1) && nn(9), "the entries of L with its diagonal");
    expect(c, L, {"# divide operations"}, I[10], nn(10), "the divisions"); expect(c, L, {"multiply-subtract operations for LDL'"}, I[11], nn(11), "the multiply-subtracts of LDL'"); expect(c, L, {"multiply-subtract operations for LU"}, I[12], nn(12), "the multiply-subtracts of LU"); expect(c, L, {"in any column of L"}, I[13], nn(13), "the largest column");
    bool fl = nn(1) && nn(10) && nn(11) && nn(12); double e = 1e-15;
    expect(c, L, {"chol flop count"}, I[1] + I[10] + 2 * I[11], fl, "the flop count of Cholesky", e); expect(c, L, {"LDL' flop count for real"}, I[10] + 2 * I[11], fl, "the flop count of LDL'", e); expect(c, L, {"LDL' flop count for complex"}, 9 * I[10] + 8 * I[11], fl, "the complex flop count of LDL'", e);
    expect(c, L, {"LU flop count for real"}, I[10] + 2 * I[12], fl, "the flop count of LU", e); expect(c, L, {"LU flop count for complex"}, 9 * I[10] + 8 * I[12], fl, "the complex flop count of LU", e);
    c.nontrivial = c.sub - s0 >= 5;
}
