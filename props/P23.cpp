#include "qp.hpp"
#include "mex.hpp"
#include "simstruc.h"
const char *property_rule() { return "a stand-in SimStruct is taken through size and sample-time initialisation of one of the two blocks (optionally with refused ports or superfluous block parameters), its ports are given the dimensions of a generated problem (n >= 3, planted or wild, n above the number of outputs included) and 1-4 simulation steps with different data are run in 1 or 2 interleaved block instances; outputs compared bit for bit with the library driven directly under the same synthetic clock, inputs compared byte for byte, ports and signals of exact size under AddressSanitizer, memory accounted; non-trivial when a step is followed by another one or equality constraints are present"; }
extern "C" { extern mock_sfun mock_qpSWIFT_sfunc, mock_qpSWIFT_sfunc_e;
void mexFunction(int, mxArray **, int, const mxArray **) {}
int mock_set_num_in(SimStruct *S, int n) { if (S->fail_in) return 0; if (n < 0 || n > MOCK_MAXPORT) { S->bad = 1; S->why = "number of input ports"; return 0; } S->nin = n; return 1; }
int mock_set_num_out(SimStruct *S, int n) { if (S->fail_out) return 0; if (n < 0 || n > MOCK_MAXPORT) { S->bad = 1; S->why = "number of output ports"; return 0; } S->nout = n; return 1; }
int mock_port(SimStruct *S, int out, int p, const char *what) { if (p < 0 || p >= (out ? S->nout : S->nin)) { S->bad = 1; S->why = what; return 0; } return 1; }
int mock_dims(SimStruct *S, int out, int p, const DimsInfo_T *d) { if (!mock_port(S, out, p, "port dimension info")) return 0; (out ? S->out_w : S->in_w)[p] = d->width; (out ? S->out_rows : S->in_rows)[p] = d->numDims > 0 ? d->dims[0] : d->width; return 1; }
}
static double extreme(Tape &t) { static const double v[] = {1e21, -1e21, 1e300, -1e300, INFINITY, -INFINITY, NAN, 5e-324, -0.0, 1e-310}; return v[t.below(10)]; }
static long long clk(long) { return 1000; }
static bool eq1(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
static const int outw[5] = {3, 1, 1, 1, 1}, NIN[2] = {4, 6};
struct Block {
    int ext; SimStruct S{}; std::vector<std::vector<real_T const *>> ptrs; std::vector<real_T *> sig; mock_sfun *f; int n, m, p;
    ~Block() { for (auto s : sig) free(s); for (int i = 0; i < 5; ++i) free(S.out[i]); }
};
static void init(Block &B, Tape &t, Ctx &c)
{
    memset(&B.S, 0, sizeof B.S); B.f = B.ext ? &mock_qpSWIFT_sfunc_e : &mock_qpSWIFT_sfunc; SimStruct *S = &B.S;
    if (strcmp(B.f->name, B.ext ? "qpSWIFT_sfunc_e" : "qpSWIFT_sfunc") || B.f->level != 2) fail("name", fmt("the block is registered as %s, level %d", B.f->name, B.f->level));
    for (int i = 0; i < MOCK_MAXPORT; ++i) { S->in_w[i] = S->out_w[i] = -77; S->feed[i] = 0; S->in_rows[i] = S->out_rows[i] = -77; } S->st[0] = S->off[0] = 99; S->ncont = S->ndisc = S->nst = -77;
    if (t.chance(1, 20)) { // something is refused: nothing may be touched that does not exist
        int k = (int)t.below(3); if (k == 0) S->fail_in = 1; else if (k == 1) S->fail_out = 1; else S->nparam = 1; B.f->sizes(S); if (S->bad) fail("port", fmt("%s on a port that was not granted", S->why)); c.label("refused initialisation"); S->fail_in = S->fail_out = S->nparam = 0; S->nin = S->nout = 0;
    }
    B.f->sizes(S); if (S->bad) fail("port", fmt("%s on a port that does not exist", S->why));
    int ni = NIN[B.ext]; if (S->nin != ni || S->nout != 5) fail("ports", fmt("%d input and %d output ports", S->nin, S->nout)); if (S->ncont || S->ndisc) fail("states", "the block declares states"); if (S->nparam_decl) fail("parameters", "the block declares parameters");
    for (int i = 0; i < ni; ++i) { if (S->in_w[i] != DYNAMICALLY_SIZED) fail("ports", fmt("input port %d is declared with width %d", i, S->in_w[i])); if (S->feed[i] != 1) fail("feedthrough", fmt("input port %d is read in the step but not declared as direct feed-through", i)); }
    for (int i = 0; i < 5; ++i) if (S->out_w[i] != outw[i]) fail("ports", fmt("output port %d is declared with width %d", i, S->out_w[i]));
    if (S->nst != 1) fail("sample-time", fmt("%d sample times", S->nst)); B.f->times(S); if (S->st[0] != -1.0 || S->off[0] != 0.0) fail("sample-time", fmt("sample time %g offset %g", S->st[0], S->off[0]));
}
static void connect(Block &B, Tape &t, int n, int m, int p)
{
    SimStruct *S = &B.S; B.n = n; B.m = m; B.p = p; std::vector<std::pair<int, int>> d = B.ext ? std::vector<std::pair<int, int>>{{n, n}, {n, 1}, {p, n}, {p, 1}, {m, n}, {m, 1}} : std::vector<std::pair<int, int>>{{n, n}, {n, 1}, {m, n}, {m, 1}};
    for (size_t i = 0; i < d.size(); ++i) {
        int w = d[i].first * d[i].second, dims[2] = {d[i].first, d[i].second}; DimsInfo_T di = {w, 2, dims};
        if (B.f->in_dims && t.chance(1, 2)) { S->in_w[i] = -5; B.f->in_dims(S, (int)i, &di); if (S->bad) fail("port", S->why); if (S->in_w[i] != w) fail("dimensions", fmt("input port %d did not take over width %d", (int)i, w)); } else S->in_w[i] = w;
        B.sig.push_back((real_T *)malloc(sizeof(real_T) * w)); B.ptrs.emplace_back(w); for (int k = 0; k < w; ++k) B.ptrs[i][k] = B.sig[i] + k; 
    }
    for (size_t i = 0; i < d.size(); ++i) S->in_ptrs[i] = B.ptrs[i].data();
    for (int i = 0; i < 5; ++i) { if (B.f->out_dims && t.chance(1, 3)) { int dm[1] = {outw[i]}; DimsInfo_T di = {outw[i], 1, dm}; B.f->out_dims(S, i, &di); if (S->bad) fail("port", S->why); if (S->out_w[i] != outw[i]) fail("dimensions", fmt("output port %d did not take over its width", i)); } S->out[i] = (real_T *)malloc(sizeof(real_T) * outw[i]); }
}
static void step(Block &B, Tape &t, Ctx &c, const QPD &q, const char *what)
{
    SimStruct *S = &B.S; std::vector<const Vec *> in = B.ext ? std::vector<const Vec *>{&q.P, &q.c, &q.A, &q.b, &q.G, &q.h} : std::vector<const Vec *>{&q.P, &q.c, &q.G, &q.h};
    for (size_t i = 0; i < in.size(); ++i) memcpy(B.sig[i], in[i]->data(), in[i]->size() * 8);
    for (int i = 0; i < 5; ++i) for (int k = 0; k < outw[i]; ++k) S->out[i][k] = 12345.678;
    vh.track = 1; vh.clock_fake = 1; vh.clock_step = clk; vh.clock_now = 7000; long live0 = vh.live; vh.badfree = 0; mx::misuse.clear(); mx::out.clear(); mx::mem.clear(); mx::inside = true;
    if (setjmp(mx::env)) { mx::inside = false; fail("error", fmt("%s raised: %s", what, mx::err.c_str())); }
    B.f->outputs(S, (int)t.below(2)); mx::inside = false; c.sub++;
    if (S->bad) fail("port", fmt("%s: %s on a port that does not exist", what, S->why)); if (S->error) fail("error", fmt("%s set an error: %s", what, S->error)); if (!mx::misuse.empty()) fail("api-misuse", mx::misuse);
    if (vh.badfree) fail("bad-free", fmt("%s freed a block that was not allocated", what)); if (vh.live != live0) fail("leak", fmt("%s leaves %ld blocks allocated", what, vh.live - live0)); if (!mx::out.empty()) fail("printed", "the step printed: " + mx::out.substr(0, 200));
    for (size_t i = 0; i < in.size(); ++i) if (memcmp(B.sig[i], in[i]->data(), in[i]->size() * 8)) fail("input-changed", fmt("%s changed input port %d", what, (int)i));
    QPD d = q; vh.clock_now = 7000; QP *w = QP_SETUP_dense(q.n, q.m, B.ext ? q.p : 0, d.P.data(), B.ext ? d.A.data() : 0, d.G.data(), d.c.data(), d.h.data(), B.ext ? d.b.data() : 0, 0, COLUMN_MAJOR_ORDERING);
    double f = (double)QP_SOLVE(w), want[4] = {f, (double)w->stats->IterationCount, w->stats->tsetup, w->stats->tsolve}; Vec x(w->x, w->x + 3); QP_CLEANUP_dense(w); static const char *nm[] = {"exit flag", "iteration count", "set-up time", "solve time"};
    for (int k = 0; k < 3; ++k) if (!eq1(S->out[0][k], x[k])) fail("values", fmt("%s: x[%d] = %.17g, the library gives %.17g", what, k, S->out[0][k], x[k]));
    for (int i = 0; i < 4; ++i) if (!eq1(S->out[i + 1][0], want[i])) fail("values", fmt("%s: %s = %.17g, the library gives %.17g", what, nm[i], S->out[i + 1][0], want[i]));
}
void property(Tape &t, Ctx &c)
{
    vh_reset(); int nb = t.chance(1, 4) ? 2 : 1; Block B[2]; std::vector<QPD> q[2]; int steps[2];
    for (int b = 0; b < nb; ++b) {
        B[b].ext = (int)t.below(2); if (B[b].ext) c.nontrivial = true; c.label(B[b].ext ? "extended block" : "basic block");
        QPD q0; Planted w; int tries = 0; do { GenCfg g; g.nmax = 7; g.mmax = 10; if (t.chance(1, 10)) { g.nmax = 20; g.mmax = 30; if (t.chance(1, 20)) { g.nmax = 70; g.mmax = 200; c.label("larger problem"); } } gen_planted(t, q0, w, g); } while ((q0.n < 3 || (B[b].ext && q0.p < 1)) && ++tries < 30);
        if (q0.n < 3 || (B[b].ext && q0.p < 1)) throw pbt::Discard();
        if (!B[b].ext) { if (q0.p) { q0.A.clear(); q0.b.clear(); q0.p = 0; } } describe(c, q0); init(B[b], t, c); connect(B[b], t, q0.n, q0.m, q0.p); q[b].push_back(q0); steps[b] = (int)t.range(1, 4); if (steps[b] > 1) c.nontrivial = true;
        for (int k = 1; k < steps[b]; ++k) { // the same dimensions, other data; every pattern may change
            QPD r = q0; int kind = t.pick({4, 2, 1}); for (auto *v : {&r.P, &r.c, &r.G, &r.h, &r.A, &r.b}) for (auto &e : *v) { if (kind == 0 && t.chance(1, 2)) continue; e = kind == 2 && t.chance(1, 8) ? (t.chance(1, 6) ? extreme(t) : wild(t)) : t.chance(1, 3) ? 0.0 : t.uni(-3, 3); }
            if (kind < 2) for (int i = 0; i < r.n; ++i) for (int j = 0; j <= i; ++j) r.Pe(i, j) = r.Pe(j, i) = i == j ? fabs(r.Pe(i, i)) + 3.0 * r.n : r.Pe(j, i); q[b].push_back(r); describe(c, r);
        }
    }
    size_t at[2] = {0, 0};
    for (;;) { std::vector<int> can; for (int b = 0; b < nb; ++b) if (at[b] < q[b].size()) can.push_back(b); if (can.empty()) break; int b = can[t.below(can.size())]; std::string w = fmt("block %d step %ld", b, (long)at[b]); step(B[b], t, c, q[b][at[b]++], w.c_str()); }
    for (int b = 0; b < nb; ++b) B[b].f->term(&B[b].S);
}
