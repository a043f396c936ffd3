// Recorded instances on which the unchanged tree breaks P02 (known_findings.txt).
#include "qp.hpp"
const char *property_rule() { return "recorded instances of the known findings of this property, solved with default settings; each counts as non-trivial"; }
struct Rec { const char *kind, *what; int n, m, p; Vec P, c, G, h, A, b; };
static const Rec recs[] = {
 {"known-1", "cancelled pivot of an equality row", 6, 1, 4,
  {2.3500000000000001, 0, 0, 0.25, 0, 0.25, 0, 0.1000000000000001, 0, 0, 0, 0, 0, 0, 0.1000000000000001, 0, 0, 0, 0.25, 0, 0, 0.35000000000000009, 0, 0.25, 0, 0, 0, 0, 0.1000000000000001, 0, 0.25, 0, 0, 0.25, 0, 0.35000000000000009},
  {13.699999999999999, 3.2000000000000002, 3.2000000000000002, 5.7000000000000002, 3.7000000000000002, 4.2000000000000002},
  {1, 0, 0, 0, 0, 0}, {-1.8999999999999999},
  {1, 1, 1, 1, 0.25, 0, 0, 1.25, 0, 1.25, 0, 0.25, 1, 1, 0, 0, 1.25, 0.25, 0.25, 0, 0, 0, 1.25, 0}, {-7, -7, -5, -5}},
 {"known-2", "cycling predictor-corrector", 6, 4, 0,
  {1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0.050000000000000003, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0.050000000000000003, 0, 0, 0, 0, 0, 0, 1},
  {0.65700931549072261, 2, 0.10000000000000001, 2, 1.319680486649482, 2},
  {-8, 3, -1.6274164389818906, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, -0.9081823877990246, 0, 0, 0, 0},
  {15.304806423932314, -5.5439126692712311, 3.4787435501813886, -0.18363522440195079}, {}, {}},
};
void property(Tape &t, Ctx &c)
{
    const Rec &r = recs[t.below(sizeof recs / sizeof *recs)]; QPD q; q.alloc(r.n, r.m, r.p); q.P = r.P; q.c = r.c; q.G = r.G; q.h = r.h; q.A = r.A; q.b = r.b;
    c.nontrivial = true; describe(c, q); Inst I; I.open(q); Sol s = I.solve();
    if (s.flag != 0) fail(r.kind, fmt("recorded instance (%s): exit code %ld after %ld iterations", r.what, s.flag, s.it));
}
