#include "qp.hpp"
#include "mex.hpp"
const char *property_rule() { return "1-3 calls of the MATLAB gateway over a stand-in for the MATLAB API: valid calls with 4-7 arguments and 0-3 outputs (sparse matrices with spare room, row or column vectors, options in upper or lower case at and inside their bounds, of other numeric classes, permutations) compared bit for bit with the library driven directly under the same synthetic clock, including printed lines; calls with one or two generated mistakes (counts, classes, complex, dense or sparse the wrong way round, shapes, empty arrays, option values out of range, NaN, empty or of a non-numeric class, invalid permutations), which must end in an error; argument bytes compared, memory accounted, every array of exact size under AddressSanitizer; non-trivial when a call carries options or equality constraints or a mistake"; }
static long long clk(long) { return 1000; }
struct Opt { double maxit = NAN, abstol = NAN, reltol = NAN, sigma = NAN, verbose = NAN; };
struct Ref { Sol s; double tset, tsol, tkkt, tldl; std::string out; Opt d; };
static Ref reference(const QPD &q, const Csc &P, const Csc &A, const Csc &G, const std::vector<qp_int> &perm, const Opt &o)
{
    Ref r; Csc p = P, a = A, g = G; Vec c = q.c, h = q.h, b = q.b; std::vector<qp_int> pm = perm; vh.clock_now = 5000; mx::out.clear();
    QP *w = QP_SETUP(q.n, q.m, q.p, p.jc.data(), p.I(), p.X(), q.p ? a.jc.data() : 0, q.p ? a.I() : 0, q.p ? a.X() : 0, g.jc.data(), g.I(), g.X(), c.data(), h.data(), q.p ? b.data() : 0, 0.0, pm.empty() ? 0 : pm.data());
    if (!std::isnan(o.maxit)) w->options->maxit = (qp_int)o.maxit; if (!std::isnan(o.abstol)) w->options->abstol = o.abstol; if (!std::isnan(o.reltol)) w->options->reltol = o.reltol; if (!std::isnan(o.sigma)) w->options->sigma = o.sigma; if (!std::isnan(o.verbose)) w->options->verbose = (qp_int)o.verbose;
    r.d.maxit = w->options->maxit; r.d.abstol = w->options->abstol; r.d.reltol = w->options->reltol; r.d.sigma = w->options->sigma; r.d.verbose = w->options->verbose;
    qp_int f = QP_SOLVE(w); r.s.flag = f; r.s.it = w->stats->IterationCount; r.s.x.assign(w->x, w->x + q.n); r.s.z.assign(w->z, w->z + q.m); r.s.s.assign(w->s, w->s + q.m); if (q.p) r.s.y.assign(w->y, w->y + q.p);
    r.s.fval = w->stats->fval; r.tset = w->stats->tsetup; r.tsol = w->stats->tsolve; r.tkkt = w->stats->kkt_time; r.tldl = w->stats->ldl_numeric; r.out = mx::out; QP_CLEANUP(w); return r;
}
static bool eq(const Vec &a, const Vec &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(memcmp(&a[i], &b[i], 8) == 0 || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
static void need(const mxArray *a, size_t rows, const Vec &want, const char *what)
{
    if (!a) fail("missing", fmt("%s is missing", what)); if (a->cls != mxDOUBLE_CLASS || a->cplx || a->sparse || a->dims.size() != 2 || a->dims[0] != rows || a->dims[1] != 1) fail("shape", fmt("%s is not a real column of %ld doubles", what, (long)rows));
    Vec v = mx::doubles(a); if (!eq(v, want)) { std::string m; for (size_t i = 0; i < v.size() && i < 6; ++i) m += fmt(" %.17g|%.17g", v[i], want[i]); fail("values", fmt("%s differs from the library's (returned|library):%s", what, m.c_str())); }
}
static mxArray *dense(const Vec &v, bool row) { mxArray *a = mx::make(mxDOUBLE_CLASS, {row ? (mwSize)1 : v.size(), row ? v.size() : (mwSize)1}); if (!v.empty()) memcpy(a->pr, v.data(), v.size() * 8); return a; }
static mxArray *scalar(double v, int cls) // cls 0 double, 1 single, 2 int32, 3 uint8, 4 int64
{
    static const mxClassID k[] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT32_CLASS, mxUINT8_CLASS, mxINT64_CLASS}; mxArray *a = mx::make(k[cls], {1, 1});
    switch (cls) { case 0: *(double *)a->pr = v; break; case 1: *(float *)a->pr = (float)v; break; case 2: *(int32_t *)a->pr = (int32_t)v; break; case 3: *(uint8_t *)a->pr = (uint8_t)v; break; default: *(int64_t *)a->pr = (int64_t)v; } return a;
}
static mxArray *tosparse(const Csc &s, size_t slack) { std::vector<long> jc(s.jc.begin(), s.jc.end()), ir(s.ir.begin(), s.ir.end()); return mx::make_sparse(s.m, s.n, jc, ir, s.pr, slack); }
static mxArray *weird(Tape &t, const mxArray *like, std::string &what) // something that is not a real double array of the right storage
{
    std::vector<mwSize> d = like->dims; mxArray *a;
    switch (t.below(6)) {
    case 0: a = mx::make(mxSINGLE_CLASS, d); what = "single"; break;
    case 1: a = mx::make(mxINT32_CLASS, d); what = "int32"; break;
    case 2: a = mx::make(mxLOGICAL_CLASS, d); what = "logical"; break;
    case 3: a = mx::make(mxDOUBLE_CLASS, d, true); what = "complex"; break;
    case 4: a = mx::make(mxSTRUCT_CLASS, {1, 1}); what = "structure"; break;
    default: a = mx::make(mxCELL_CLASS, d); what = "cell";
    }
    if (like->sparse && t.chance(1, 3) && a->cls == mxDOUBLE_CLASS) what += " dense";
    return a;
}
struct Args { std::map<std::string, mxArray *> v; };
void property(Tape &t, Ctx &c)
{
    struct Guard { ~Guard() { mx::drop_all(); } } guard; mx::drop_all(); vh_reset(); int calls = (int)t.range(1, 3);
    for (int k = 0; k < calls; ++k) {
        QPD q; Planted w; GenCfg g; g.nmax = 6; g.mmax = 8; if (t.chance(1, 10)) { g.nmax = 20; g.mmax = 30; if (t.chance(1, 20)) { g.nmax = 70; g.mmax = 200; c.label("larger problem"); } } if (t.chance(1, 5)) { gen_wild(t, q, 5, 6, true); if (t.chance(1, 5)) { static const double xv[] = {1e21, -1e21, 1e300, -1e300, INFINITY, -INFINITY, NAN, 5e-324, -0.0, 1e-310}; Vec *w[] = {&q.P, &q.c, &q.G, &q.h, &q.A, &q.b}; Vec &v = *w[t.below(6)]; if (!v.empty()) { size_t k = t.below(v.size()); if (v[k] != 0 || v.size() == q.c.size() || t.chance(1, 2)) v[k] = xv[t.below(10)]; } } } else gen_planted(t, q, w, g);
        int N = q.n + q.m + q.p; describe(c, q); bool six = q.p > 0;
        Csc P = to_csc(q.n, q.n, q.P), G = to_csc(q.m, q.n, q.G), A = to_csc(q.p, q.n, q.A);
        std::map<std::string, mxArray *> a; auto sl = [&]() { return t.chance(1, 3) ? (size_t)t.range(1, 4) : (size_t)0; }; auto row = [&]() { return t.chance(1, 5); }; bool lenient = false;
        auto mk = [&](const Vec &v) { bool r = v.size() > 1 && row(); if (r) lenient = true; return dense(v, r); };
        a["P"] = tosparse(P, sl()); a["c"] = mk(q.c); a["G"] = tosparse(G, sl()); a["h"] = mk(q.h); if (six) { a["A"] = tosparse(A, sl()); a["b"] = mk(q.b); }
        // options
        bool opts = t.chance(3, 4); mxArray *st = nullptr; Opt o; std::vector<qp_int> perm; std::string mist; bool lower = t.chance(1, 2); int odd_opts = 0;
        auto nm = [&](const char *u) { std::string s = u; bool lo = t.chance(1, 6) ? !lower : lower; if (lo) for (auto &ch : s) ch = tolower(ch); return s; };
        if (opts) {
            c.nontrivial = true; st = mx::make_struct({}); if (t.chance(1, 5)) mx::set(st, "note", dense({1, 2}, false));
            if (t.chance(1, 2)) { o.maxit = t.chance(1, 4) ? (t.chance(1, 2) ? 0 : 200) : (double)t.range(0, 40); mx::set(st, nm("MAXITER"), scalar(o.maxit, t.pick({8, 1, 1, 1, 1}))); }
            if (t.chance(1, 2)) { static const double v[] = {1e-6, 1e-3, 1e-9, 0.0, 1.0, 0.25}; o.abstol = v[t.below(6)]; int cl = o.abstol == 0.25 || o.abstol == 0 || o.abstol == 1 ? (int)t.pick({4, 1}) : 0; mx::set(st, nm("ABSTOL"), scalar(o.abstol, cl)); }
            if (t.chance(1, 2)) { static const double v[] = {1e-6, 1e-4, 1e-8, 0.0, 1.0, 0.5}; o.reltol = v[t.below(6)]; int cl = o.reltol == 0.5 || o.reltol == 0 || o.reltol == 1 ? (int)t.pick({4, 1}) : 0; mx::set(st, nm("RELTOL"), scalar(o.reltol, cl)); }
            if (t.chance(1, 2)) { static const double v[] = {100, 0.5, 0.0, 1e-3, 1, 7}; o.sigma = v[t.below(6)]; int cl = o.sigma == 100 || o.sigma == 7 ? (int)t.pick({4, 1, 1, 1}) : 0; mx::set(st, nm("SIGMA"), scalar(o.sigma, cl)); }
            if (t.chance(1, 2)) { o.verbose = (double)t.below(3); mx::set(st, nm("VERBOSE"), scalar(o.verbose, t.pick({4, 1, 1, 1, 1}))); }
            if (t.chance(1, 3)) { perm = gen_perm(t, N); Vec d(perm.begin(), perm.end()); for (auto &v : d) v += 1; mx::set(st, nm("PERMUT"), dense(d, t.chance(1, 2))); c.vec("permutation (one-based)", d); }
        }
        int nlhs = t.pick({1, 3, 3, 8}); // 0..3
        // mistakes
        std::vector<std::string> order = six ? std::vector<std::string>{"P", "c", "A", "b", "G", "h"} : std::vector<std::string>{"P", "c", "G", "h"}; bool extra = false, fewer = false;
        if (nlhs && t.chance(1, 3)) {
            c.nontrivial = true; int nm2 = t.chance(1, 5) ? 2 : 1;
            std::string bad1; for (int e = 0; e < nm2; ++e) {
                std::string key = order[t.below(order.size())], wh; if (e && (key == bad1)) continue; bad1 = key; mxArray *old = a[key]; bool mat = old->sparse; int kind = (int)t.pick({3, 2, 3, 2, 2, 5, 3, 1}); if (e && (kind == 2 || kind == 3 || kind == 4)) kind = 0; // two wrong shapes could fit each other
                if (kind == 0) { mxArray *n = weird(t, old, wh); a[key] = n; mist += key + " is " + wh + "; "; }
                else if (kind == 1) { // the other storage
                    mxArray *n; if (mat) { n = mx::make(mxDOUBLE_CLASS, old->dims); } else { std::vector<long> jc(old->dims[1] + 1, 0), ir; Vec pr; for (mwSize j = 0; j < old->dims[1]; ++j) { for (mwSize i = 0; i < old->dims[0]; ++i) { ir.push_back(i); pr.push_back(1); } jc[j + 1] = (long)ir.size(); } n = mx::make_sparse(old->dims[0], old->dims[1], jc, ir, pr); }
                    a[key] = n; mist += key + (mat ? " is dense; " : " is sparse; ");
                } else if (kind == 2) { // one dimension wrong
                    std::vector<mwSize> d = old->dims; if (mat) { int r = (int)t.below(2); d[r] = t.chance(1, 3) && d[r] > 1 ? d[r] - 1 : d[r] + t.range(1, 3); } else { int r = d[0] >= d[1] ? 0 : 1; d[r] = t.chance(1, 3) && d[r] > 1 ? d[r] - 1 : d[r] + t.range(1, 3); if (old->numel() == 1) { d[0] = 2; d[1] = 1; } }
                    mxArray *n; if (mat) n = mx::make_sparse(d[0], d[1], std::vector<long>(d[1] + 1, 0), {}, {}); else { n = mx::make(mxDOUBLE_CLASS, d); }
                    a[key] = n; mist += key + fmt(" is %ld by %ld; ", (long)d[0], (long)d[1]);
                } else if (kind == 3) { // empty
                    if (mat) { mwSize d0 = t.chance(1, 2) ? 0 : old->dims[0]; a[key] = mx::make_sparse(d0, d0 && t.chance(1, 2) ? old->dims[1] : 0, std::vector<long>(old->dims[1] + 1, 0), {}, {}); if (a[key]->dims == old->dims) { a[key] = old; continue; } }
                    else { mwSize d0 = t.chance(1, 3) ? 0 : 1; a[key] = mx::make(mxDOUBLE_CLASS, t.chance(1, 2) ? std::vector<mwSize>{0, d0} : std::vector<mwSize>{d0, 0}); }
                    mist += key + " is empty; ";
                } else if (kind == 4) { // a vector given as a matrix
                    if (mat) continue; mxArray *n = mx::make(mxDOUBLE_CLASS, {old->numel(), (mwSize)t.range(2, 3)}); if (old->numel() == 1) continue; a[key] = n; mist += key + " is a dense matrix; ";
                } else if (kind == 5) { // an option
                    if (!st) { st = mx::make_struct({}); opts = true; } static const char *names[] = {"MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE"}; int i = (int)t.below(5); std::string n = names[i]; if (t.chance(1, 2)) for (auto &ch : n) ch = tolower(ch);
                    bool clash = false; for (auto &f : st->names) { std::string u = f; for (auto &ch : u) ch = toupper(ch); if (u == names[i]) clash = true; } if (clash) continue;
                    mxArray *v; std::string d; switch (t.below(7)) {
                    case 0: case 1: { static const double hi[] = {201, 1.0000000000000002, 1.5, INFINITY, INFINITY}; double x = i < 3 && t.chance(1, 2) ? hi[i] : t.chance(1, 2) ? -1.0 : -1e-9; if (i == 0 && x > -1 && x < 0) x = -3; v = scalar(x, 0); d = fmt("%.17g", x); break; }
                    case 2: v = scalar(NAN, 0); d = "NaN"; break;
                    case 3: v = mx::make(mxDOUBLE_CLASS, {0, 0}); d = "[]"; break;
                    case 4: v = mx::make(mxSTRUCT_CLASS, {1, 1}); d = "a structure"; break;
                    case 5: v = mx::make(mxCELL_CLASS, {1, 1}); d = "a cell"; break;
                    default: v = mx::make(mxDOUBLE_CLASS, {1, 1}, true); *(double *)v->pr = 0.5; d = "complex"; break; }
                    mx::set(st, n, v); mist += "option " + n + " is " + d + "; ";
                } else if (kind == 6) { // a permutation
                    if (!st) { st = mx::make_struct({}); opts = true; } if (mx::field(st, "PERMUT") || mx::field(st, "permut")) continue;
                    std::vector<qp_int> pm = gen_perm(t, N); Vec d(pm.begin(), pm.end()); for (auto &v : d) v += 1; mxArray *v; std::string wd;
                    switch (t.below(8)) {
                    case 0: d[t.below(N)] = t.chance(1, 2) ? 0 : N + 1; wd = "has an entry out of range"; v = dense(d, false); break;
                    case 1: { int i = (int)t.below(N), j = (int)t.below(N); if (i == j) j = (j + 1) % N; if (i == j) continue; d[i] = d[j]; wd = "repeats an entry"; v = dense(d, t.chance(1, 2)); break; }
                    case 2: if (t.chance(1, 2) && N > 1) d.pop_back(); else d.push_back(N + 1); wd = "has the wrong length"; v = dense(d, false); break;
                    case 3: v = mx::make(t.chance(1, 2) ? mxINT32_CLASS : mxSINGLE_CLASS, {(mwSize)N, 1}); wd = "is not double"; break;
                    case 4: d[t.below(N)] = t.chance(1, 2) ? NAN : t.chance(1, 2) ? INFINITY : -1e30; wd = "has a non-finite or huge entry"; v = dense(d, false); break;
                    case 5: v = mx::make(mxDOUBLE_CLASS, {(mwSize)N, 2}); for (int i = 0; i < 2 * N; ++i) ((double *)v->pr)[i] = d[i % N]; wd = "is a matrix"; if (N == 1) continue; break;
                    case 6: { std::vector<long> jc{0, (long)N}, ir; for (int i = 0; i < N; ++i) ir.push_back(i); v = mx::make_sparse(N, 1, jc, ir, d); } wd = "is sparse"; break;
                    default: v = mx::make(mxDOUBLE_CLASS, {(mwSize)N, 1}, true); for (int i = 0; i < N; ++i) ((double *)v->pr)[i] = d[i]; wd = "is complex"; }
                    mx::set(st, t.chance(1, 2) ? "PERMUT" : "permut", v); mist += "the permutation " + wd + "; ";
                } else { if (t.chance(1, 2)) { fewer = true; mist += "too few arguments; "; } else { extra = true; mist += "too many arguments; "; } }
            }
        }
        std::vector<mxArray *> args; for (auto &n : order) args.push_back(a[n]); if (st) args.push_back(st);
        if (!st && mist.empty() && t.chance(1, 12)) { args.push_back(t.chance(1, 2) ? mx::make(mxDOUBLE_CLASS, {0, 0}) : mx::make(mxDOUBLE_CLASS, {1, 1})); odd_opts = 1; c.label("options argument that is not a structure"); }
        if (fewer) args.resize(t.below(4)); if (extra) while (args.size() < 8) args.push_back(mx::make(mxDOUBLE_CLASS, {1, 1})); if (nlhs && mist.empty() && t.chance(1, 30)) { nlhs = (int)t.range(4, 6); mist = "too many outputs; "; }
        std::vector<std::string> im; for (auto x : args) im.push_back(mx::image(x)); c.note("call %d: %ld arguments, %d outputs, %s%s", k, (long)args.size(), nlhs, mist.c_str(), opts ? "options" : "no options");
        if (c.want_desc && st) for (size_t i = 0; i < st->names.size(); ++i) if (st->vals[i] && st->vals[i]->pr && st->vals[i]->cls <= mxUINT64_CLASS) c.note("  %s = %.17g", st->names[i].c_str(), mxGetScalar(st->vals[i]));
        if (six) c.nontrivial = true;
        vh.track = 1; vh.clock_fake = 1; vh.clock_step = clk; vh.clock_now = 5000; long live0 = vh.live; vh.badfree = 0;
        mx::Call r = mx::call(nlhs, args); c.sub++;
        if (vh.badfree) fail("bad-free", "a block was freed that was not allocated, or was freed twice");
        if (vh.live != live0) fail("leak", fmt("%ld blocks stay allocated after the call", vh.live - live0));
        if (!r.misuse.empty()) fail("api-misuse", r.misuse + (mist.empty() ? "" : " (" + mist + ")"));
        for (size_t i = 0; i < args.size(); ++i) if (mx::image(args[i]) != im[i]) fail("argument-changed", fmt("argument %ld was changed by the call", (long)i));
        if (!mist.empty()) { c.label(mist.substr(0, mist.find(' ')) == "option" ? "bad option" : "mistake"); if (!r.error) fail("accepted", "a call was accepted although " + mist); continue; }
        if (nlhs == 0) { c.label("help"); if (r.error) fail("rejected", "a call without outputs raised: " + r.err); if (r.out.empty()) fail("help", "a call without outputs printed nothing"); mx::release(r); continue; }
        if (r.error) { if (lenient || odd_opts) continue; fail("rejected", "a valid call raised: " + r.err); }
        if (r.leaked) fail("leak", fmt("%ld blocks or arrays were left for MATLAB to collect", r.leaked));
        c.label(fmt("%ld arguments, %d outputs", (long)args.size(), nlhs)); Ref R = reference(q, P, A, G, perm, o);
        need(r.lhs[0], q.n, R.s.x, "the solution");
        if (nlhs >= 2) {
            const mxArray *b = r.lhs[1]; if (!b || b->cls != mxSTRUCT_CLASS || b->numel() != 1) fail("missing", "the basic information is not a structure"); static const char *f[] = {"ExitFlag", "Iterations", "Setup_Time", "Solve_Time"}; double v[] = {(double)R.s.flag, (double)R.s.it, R.tset, R.tsol};
            if (b->names.size() != 4) fail("fields", "the basic information has other fields than the documented ones"); for (int i = 0; i < 4; ++i) need(mx::field(b, f[i]), 1, {v[i]}, f[i]);
        }
        if (nlhs == 3) {
            const mxArray *b = r.lhs[2]; if (!b || b->cls != mxSTRUCT_CLASS || b->numel() != 1) fail("missing", "the advanced information is not a structure"); if (b->names.size() != 6) fail("fields", "the advanced information has other fields than the documented ones");
            need(mx::field(b, "Fval"), 1, {R.s.fval}, "Fval"); need(mx::field(b, "KKT_Time"), 1, {R.tkkt}, "KKT_Time"); need(mx::field(b, "LDL_Time"), 1, {R.tldl}, "LDL_Time"); need(mx::field(b, "z"), q.m, R.s.z, "z"); need(mx::field(b, "s"), q.m, R.s.s, "s");
            if (q.p) need(mx::field(b, "y"), q.p, R.s.y, "y"); else if (mx::field(b, "y") && mx::field(b, "y")->numel()) fail("fields", "y is set without equality constraints");
        }
        // printing
        if (!(o.verbose > 0)) { if (!r.out.empty()) fail("printed", "a silent call printed: " + r.out.substr(0, 200)); }
        else {
            if (r.out.find(R.out) == std::string::npos) fail("printed", "the iterations the library prints are missing from the output");
            std::string head = r.out.substr(0, r.out.find(R.out)); std::string want[] = {fmt("%ld", (long)R.d.maxit), fmt("%e", R.d.abstol), fmt("%e", R.d.reltol), fmt("%e", R.d.sigma), fmt("%ld", (long)R.d.verbose)};
            size_t pos = 0; for (auto &s : want) { pos = head.find(s, pos); if (pos == std::string::npos) fail("printed", "the setting " + s + " is not printed in its place: " + head.substr(0, 600)); pos += s.size(); }
        }
        mx::release(r);
    }
}
