// Property-based testing engine: choice tape, recording generator, sharded runner with
// crash/hang isolation, tape shrinker and replay.  A property is one function
//     void property(Tape &t, Ctx &c)
// that decodes a structured case from the tape, runs the code under test, and throws
// Fail on a violation.  A tape entry of 0 always decodes to the simplest choice and
// smaller entries decode to simpler choices, so shrinking works on the tape alone.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>

namespace pbt {

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
    va_list a; va_start(a, f); char b[4096]; vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

struct Rng { // splitmix64
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
};

// interesting integers (literals of the source tree); bias only
inline std::vector<long> &dict() { static std::vector<long> d; return d; }

struct SharedTape { volatile uint64_t idx; volatile uint64_t len; volatile uint32_t v[1 << 20]; };

struct Tape {
    std::vector<uint32_t> v;
    size_t pos = 0;
    Rng *rng = nullptr;        // recording when set
    SharedTape *shared = nullptr;
    size_t limit = 1 << 20;
    uint32_t put(uint32_t x)
    {
        if (shared && v.size() < limit) { shared->v[v.size()] = x; shared->len = v.size() + 1; }
        v.push_back(x); pos = v.size(); return x;
    }
    uint32_t raw()
    {
        if (rng) return put((uint32_t)rng->next());
        return pos < v.size() ? v[pos++] : 0;
    }
    static uint64_t scale(uint32_t r, uint64_t n) { return ((uint64_t)r * n) >> 32; }
    static uint32_t unscale(uint64_t k, uint64_t n) { // smallest r with scale(r,n)==k
        return (uint32_t)((((unsigned __int128)k << 32) + n - 1) / n);
    }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n <= 1 ? (void)0, 0 : scale(raw(), n); }
    // integer in [lo,hi], lo is simplest
    long range(long lo, long hi) { return hi <= lo ? lo : lo + (long)below((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { // false is simplest
        return scale(raw(), den) >= den - num;
    }
    // integer in [lo,hi] (decoded uniformly) but recorded with a bias towards small values and
    // towards integers that occur in the sources
    long dim(long lo, long hi)
    {
        if (hi <= lo) return lo;
        uint64_t n = (uint64_t)(hi - lo + 1);
        if (!rng) return lo + (long)scale(raw(), n);
        uint64_t k; uint64_t w = rng->below(100);
        if (w < 12 && !dict().empty()) {
            long d = dict()[rng->below(dict().size())] + (long)rng->below(3) - 1;
            k = d < lo || d > hi ? rng->below(n) : (uint64_t)(d - lo);
        }
        else if (w < 60) k = rng->below(std::min<uint64_t>(n, 1 + n / 6));
        else k = rng->below(n);
        put(unscale(k, n));
        return lo + (long)k;
    }
    // weighted choice; index 0 simplest
    int pick(std::initializer_list<unsigned> w)
    {
        uint64_t tot = 0; for (unsigned x : w) tot += x;
        uint64_t r = below(tot); int i = 0;
        for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    double unit() { return (double)raw() / 4294967296.0; }              // [0,1)
    double unit53() { uint64_t a = raw() >> 5, b = raw() >> 6; return (a * 67108864.0 + b) / 9007199254740992.0; }
    double uni(double lo, double hi) { return lo + (hi - lo) * unit53(); }
    double sgn() { return chance(1, 2) ? -1.0 : 1.0; }
    // a "nice or nasty" O(1) value: never 0; raw 0 -> 1
    double val()
    {
        switch (pick({30, 20, 40, 6, 4})) {
        case 0: { double k = (double)range(1, 3); return k * sgn(); }
        case 1: { double k = (double)range(1, 12); return k / 4.0 * sgn(); }
        case 2: { double s = sgn(); return s * uni(0.05, 2.0); }
        case 3: { double s = sgn(); return s * std::ldexp(1.0, (int)range(0, 3)); }
        default: { double s = sgn(); return s * std::ldexp(1.0, -(int)range(0, 4)); }
        }
    }
};

struct Fail { std::string kind, msg; };
[[noreturn]] inline void fail(const std::string &kind, const std::string &msg) { throw Fail{kind, msg}; }
struct Discard {};
[[noreturn]] inline void discard() { throw Discard{}; }

struct Ctx {
    bool want_desc = false;
    std::string desc;
    bool nontrivial = false;
    uint64_t sub = 0;                       // evaluations inside the case beyond the first
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> maxm;     // maxima of margins
    void label(const std::string &s) { labels[s]++; }
    void metric(const std::string &s, double x) { if (!(x == x)) x = 1e300; auto it = maxm.find(s); if (it == maxm.end() || it->second < x) maxm[s] = x; }
    void note(const char *f, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!want_desc) return;
        va_list a; va_start(a, f); char b[8192]; vsnprintf(b, sizeof b, f, a); va_end(a); desc += b; desc += "\n";
    }
    template <class V> void vec(const char *name, const V &v)
    {
        if (!want_desc) return;
        desc += name; desc += " = [";
        size_t k = 0; for (auto x : v) { desc += fmt(k ? ", %.17g" : "%.17g", (double)x); if (++k > 4000) { desc += " ..."; break; } }
        desc += "]\n";
    }
};

} // namespace pbt
using pbt::Tape; using pbt::Ctx; using pbt::fail; using pbt::fmt;

void property(Tape &t, Ctx &c); // supplied by the check
const char *property_rule();    // how cases are made, what is non-trivial

namespace pbt {
inline uint64_t hashv(const std::vector<uint32_t> &v, size_t n)
{
    uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n && i < v.size(); ++i) { h ^= v[i]; h *= 1099511628211ull; } return h;
}
inline std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch); else o += ch; }
    return o + "\"";
}
inline std::vector<uint32_t> load_tape(const char *f)
{
    std::vector<uint32_t> v; FILE *fp = fopen(f, "r"); if (!fp) { perror(f); _exit(3); }
    char line[4096]; while (fgets(line, sizeof line, fp)) if (line[0] != '#' && line[0] != '\n') v.push_back((uint32_t)strtoul(line, 0, 10));
    fclose(fp); return v;
}
inline void save_tape(const std::string &f, const std::vector<uint32_t> &v, const std::string &hdr = "")
{
    FILE *fp = fopen(f.c_str(), "w"); if (!fp) return; if (!hdr.empty()) fprintf(fp, "# %s\n", hdr.c_str());
    for (auto x : v) fprintf(fp, "%u\n", x); fclose(fp);
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
extern "C" inline void on_cpu_limit(int) { static const char m[] = "\nPBT: case exceeded its CPU limit\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
inline void arm(double cpu_s)
{
    struct itimerval it = {}; it.it_value.tv_sec = (long)cpu_s; it.it_value.tv_usec = (long)((cpu_s - (long)cpu_s) * 1e6);
    signal(SIGPROF, on_cpu_limit); setitimer(ITIMER_PROF, &it, 0);
}
inline void disarm() { struct itimerval it = {}; setitimer(ITIMER_PROF, &it, 0); }
static double CASE_CPU = 20.0;

// Run one tape in a child. Returns kind ("" = held); msg and desc through files.
struct Outcome { std::string kind, msg, desc; size_t used = 0; };
inline Outcome run_isolated(const std::vector<uint32_t> &v, bool want_desc)
{
    int fd[2]; if (pipe(fd)) _exit(3);
    fflush(0);
    char errf[] = "/tmp/pbt_err_XXXXXX"; int ef = mkstemp(errf);
    pid_t p = fork();
    if (!p) {
        close(fd[0]); dup2(ef, 2);
        Tape t; t.v = v; Ctx c; c.want_desc = want_desc; std::string k, m;
        arm(CASE_CPU);
        try { property(t, c); } catch (Fail &f) { k = f.kind; m = f.msg; } catch (Discard &) { }
        disarm();
        auto w = [&](const std::string &s) { uint64_t n = s.size(); (void)!write(fd[1], &n, 8); size_t o = 0; while (o < n) { ssize_t r = write(fd[1], s.data() + o, n - o); if (r <= 0) break; o += r; } };
        w("done"); w(k); w(m); w(c.desc); w(std::to_string(t.pos)); _exit(0);
    }
    close(fd[1]);
    std::string all; char b[65536]; ssize_t r; while ((r = read(fd[0], b, sizeof b)) > 0) all.append(b, r);
    close(fd[0]); int st; waitpid(p, &st, 0);
    Outcome o; size_t q = 0; std::vector<std::string> parts;
    while (q + 8 <= all.size()) { uint64_t n; memcpy(&n, &all[q], 8); q += 8; if (q + n > all.size()) break; parts.push_back(all.substr(q, n)); q += n; }
    if (parts.size() == 5) { o.kind = parts[1]; o.msg = parts[2]; o.desc = parts[3]; o.used = (size_t)atol(parts[4].c_str()); }
    else {
        bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 97;
        o.kind = hang ? "hang" : "crash";
        o.msg = hang ? fmt("did not finish within %g s of CPU time", CASE_CPU) : WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exit status %d", WEXITSTATUS(st));
        lseek(ef, 0, SEEK_SET); std::string e; while ((r = read(ef, b, sizeof b)) > 0 && e.size() < 12000) e.append(b, r);
        o.desc = e; o.used = v.size();
    }
    close(ef); unlink(errf); return o;
}

inline int do_shrink(const char *in, const char *out, double budget)
{
    auto best = load_tape(in); Outcome o = run_isolated(best, false);
    if (o.kind.empty()) { printf("{\"reproduced\": false}\n"); return 0; }
    std::string kind = o.kind; double t0 = now(); uint64_t tries = 0;
    if (kind == "hang") CASE_CPU = 5;
    auto ok = [&](const std::vector<uint32_t> &c) { if (now() - t0 > budget) return false; ++tries; Outcome q = run_isolated(c, false); return q.kind == kind; };
    { auto c = best; if (o.used < c.size()) { c.resize(o.used); if (ok(c)) best = c; } }
    bool prog = true;
    while (prog && now() - t0 < budget) {
        prog = false;
        for (size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk /= 2) { // delete blocks
            for (size_t i = best.size(); i > 0 && now() - t0 < budget;) {
                size_t s = i > blk ? i - blk : 0; auto c = best; c.erase(c.begin() + s, c.begin() + std::min(i, best.size()));
                if (c.size() < best.size() && ok(c)) { best = c; prog = true; i = std::min(s, best.size()); } else i = s;
            }
            if (blk == 1) break;
        }
        for (size_t blk = std::max<size_t>(1, best.size() / 4); blk >= 1; blk /= 2) { // zero blocks
            for (size_t i = 0; i < best.size() && now() - t0 < budget; i += blk) {
                auto c = best; bool ch = false; for (size_t j = i; j < std::min(i + blk, c.size()); ++j) { ch |= c[j] != 0; c[j] = 0; }
                if (ch && ok(c)) { best = c; prog = true; }
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) { // lower entries
            if (!best[i]) continue;
            uint32_t lo = 0, hi = best[i];
            while (hi - lo > 1 && hi - lo > hi / 64 && now() - t0 < budget) { auto c = best; uint32_t mid = lo + (hi - lo) / 2; c[i] = mid; if (ok(c)) { best = c; hi = mid; prog = true; } else lo = mid; }
        }
    }
    while (!best.empty() && best.back() == 0) { auto c = best; c.pop_back(); if (!ok(c)) break; best = c; }
    save_tape(out, best); printf("{\"reproduced\": true, \"kind\": %s, \"tries\": %lu, \"size\": %zu}\n", jstr(kind).c_str(), (unsigned long)tries, best.size());
    return 0;
}

inline int do_replay(const char *in)
{
    auto v = load_tape(in); Outcome o = run_isolated(v, true);
    printf("{\"kind\": %s, \"msg\": %s, \"desc\": %s}\n", jstr(o.kind).c_str(), jstr(o.msg).c_str(), jstr(o.desc).c_str());
    return 0;
}

// run SEED SHARD NSHARDS NCASES TIMECAP OUTPREFIX
inline int do_run(int argc, char **argv)
{
    if (argc < 8) return 3;
    uint64_t seed = strtoull(argv[2], 0, 10), shard = strtoull(argv[3], 0, 10), nsh = strtoull(argv[4], 0, 10), ncases = strtoull(argv[5], 0, 10);
    double cap = atof(argv[6]); std::string out = argv[7];
    auto *sh = (SharedTape *)mmap(0, sizeof(SharedTape), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now(); uint64_t start = shard; int chunk = 0;
    uint64_t crashes = 0; std::string fails; int nfail = 0;
    // Each worker handles a stretch of cases; statistics are written per worker and merged by the caller.
    while (start < ncases && now() - t0 < cap && nfail < 3) {
        sh->idx = start; sh->len = 0;
        fflush(0);
        std::string part = out + fmt(".part%d", chunk++);
        char errf[512]; snprintf(errf, sizeof errf, "%s.err", part.c_str());
        pid_t p = fork();
        if (!p) {
            int ef = open(errf, O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(ef, 2);
            uint64_t ev = 0, nt = 0, sub = 0, disc = 0; std::set<uint64_t> seen; std::map<std::string, uint64_t> lab; std::map<std::string, double> mx; std::vector<std::string> samples; std::string ff; int nf = 0;
            uint64_t i = start;
            for (; i < ncases; i += nsh) {
                if (now() - t0 > cap) break;
                Rng r(seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 12345); r.next(); r.s ^= r.next();
                Tape t; t.rng = &r; t.shared = sh; sh->idx = i; sh->len = 0;
                Ctx c; c.want_desc = samples.size() < 2 && ev >= 3;
                arm(CASE_CPU);
                bool bad = false; Fail f;
                try { property(t, c); } catch (Fail &e) { bad = true; f = e; } catch (Discard &) { ++disc; disarm(); continue; }
                disarm();
                ++ev; sub += c.sub; for (auto &l : c.labels) lab[l.first] += l.second;
                for (auto &l : c.maxm) if (!mx.count(l.first) || mx[l.first] < l.second) mx[l.first] = l.second;
                if (c.nontrivial) { if (seen.insert(hashv(t.v, t.v.size())).second) ++nt; if (c.want_desc && !bad) samples.push_back(c.desc.substr(0, 3000)); }
                if (bad) {
                    std::string tf = out + fmt(".fail%lu.tape", (unsigned long)i); save_tape(tf, t.v);
                    ff += fmt("%s{\"tape\": %s, \"kind\": %s, \"msg\": %s}", nf ? ", " : "", jstr(tf).c_str(), jstr(f.kind).c_str(), jstr(f.msg).c_str());
                    if (++nf >= 2) { i += nsh; break; }
                }
            }
            if (FILE *hf = fopen((part + ".hash").c_str(), "wb")) { for (uint64_t h : seen) fwrite(&h, 8, 1, hf); fclose(hf); }
            FILE *fp = fopen(part.c_str(), "w");
            fprintf(fp, "{\"evaluations\": %lu, \"sub\": %lu, \"nontrivial\": %lu, \"discarded\": %lu, \"labels\": {", (unsigned long)ev, (unsigned long)sub, (unsigned long)nt, (unsigned long)disc);
            int k = 0; for (auto &l : lab) fprintf(fp, "%s%s: %lu", k++ ? ", " : "", jstr(l.first).c_str(), (unsigned long)l.second);
            fprintf(fp, "}, \"max\": {"); k = 0; for (auto &l : mx) fprintf(fp, "%s%s: %.6g", k++ ? ", " : "", jstr(l.first).c_str(), std::isfinite(l.second) ? l.second : 1e300);
            fprintf(fp, "}, \"samples\": ["); k = 0; for (auto &s : samples) fprintf(fp, "%s%s", k++ ? ", " : "", jstr(s).c_str());
            fprintf(fp, "], \"fails\": [%s], \"next\": %lu}\n", ff.c_str(), (unsigned long)i); fclose(fp);
            _exit(nf ? 98 : 0);
        }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 98) break; // reported its own failures
        // crash or hang: the tape so far is in shared memory
        std::vector<uint32_t> v(sh->v, sh->v + sh->len); std::string tf = out + fmt(".fail%lu.tape", (unsigned long)sh->idx); save_tape(tf, v);
        fails += fmt("%s{\"tape\": %s, \"kind\": %s, \"msg\": %s}", nfail ? ", " : "", jstr(tf).c_str(), WIFEXITED(st) && WEXITSTATUS(st) == 97 ? "\"hang\"" : "\"crash\"", jstr(fmt("case %lu", (unsigned long)sh->idx)).c_str());
        ++nfail; ++crashes; start = sh->idx + nsh;
    }
    FILE *fp = fopen((out + ".crash").c_str(), "w"); fprintf(fp, "{\"fails\": [%s]}\n", fails.c_str()); fclose(fp);
    return 0;
}

// series SEED NSHARDS START END: the cases START, START+NSHARDS, ... END of a run, one after another in one process
// (for failures that need the history of earlier cases)
inline int do_series(int argc, char **argv)
{
    uint64_t seed = strtoull(argv[2], 0, 10), nsh = strtoull(argv[3], 0, 10), a = strtoull(argv[4], 0, 10), b = strtoull(argv[5], 0, 10);
    auto *sh = (SharedTape *)mmap(0, sizeof(SharedTape), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int fd[2]; if (pipe(fd)) return 3; fflush(0); pid_t p = fork();
    if (!p) {
        close(fd[0]); std::string o;
        for (uint64_t i = a; i <= b; i += nsh) {
            Rng r(seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 12345); r.next(); r.s ^= r.next();
            Tape t; t.rng = &r; t.shared = sh; sh->idx = i; sh->len = 0; Ctx c; c.want_desc = i == b; std::string k, m;
            arm(CASE_CPU); try { property(t, c); } catch (Fail &e) { k = e.kind; m = e.msg; } catch (Discard &) { } disarm();
            if (!k.empty()) { o = fmt("{\"kind\": %s, \"msg\": %s, \"desc\": %s}", jstr(k).c_str(), jstr(m).c_str(), jstr(c.desc).c_str()); break; }
        }
        if (o.empty()) o = "{\"kind\": \"\", \"msg\": \"\", \"desc\": \"\"}";
        size_t q = 0; while (q < o.size()) { ssize_t r = write(fd[1], o.data() + q, o.size() - q); if (r <= 0) break; q += r; } _exit(0);
    }
    close(fd[1]); std::string all; char buf[65536]; ssize_t r; while ((r = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, r); int st; waitpid(p, &st, 0);
    if (all.empty()) { bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 97; all = fmt("{\"kind\": \"%s\", \"msg\": \"case %lu of the series\", \"desc\": \"\"}", hang ? "hang" : "crash", (unsigned long)sh->idx); }
    puts(all.c_str()); return 0;
}
} // namespace pbt

#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    Tape t; t.v.resize(n / 4); memcpy(t.v.data(), d, n / 4 * 4);
    Ctx c;
    try { property(t, c); }
    catch (pbt::Fail &f) { fprintf(stderr, "PBT-FAIL %s: %s\n", f.kind.c_str(), f.msg.c_str()); abort(); }
    catch (pbt::Discard &) { return -1; }
    return 0;
}
#else
int main(int argc, char **argv)
{
    if (argc > 1 && !strcmp(argv[1], "rule")) { puts(property_rule()); return 0; }
    if (const char *d = getenv("PBT_DICT")) { char *s = strdup(d); for (char *p = strtok(s, ","); p; p = strtok(0, ",")) pbt::dict().push_back(atol(p)); }
    if (const char *d = getenv("PBT_CASE_CPU")) pbt::CASE_CPU = atof(d);
    if (argc > 1 && !strcmp(argv[1], "run")) return pbt::do_run(argc, argv);
    if (argc > 4 && !strcmp(argv[1], "shrink")) return pbt::do_shrink(argv[2], argv[3], atof(argv[4]));
    if (argc > 5 && !strcmp(argv[1], "series")) return pbt::do_series(argc, argv);
    if (argc > 2 && !strcmp(argv[1], "replay")) return pbt::do_replay(argv[2]);
    fprintf(stderr, "usage: run SEED SHARD NSHARDS NCASES CAP OUT | shrink IN OUT SECONDS | replay TAPE\n"); return 3;
}
#endif
