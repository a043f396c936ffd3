"""Python side of the engine in pbt.hpp: choice tape, generated-input runner with crash isolation,
tape shrinker and replay.  A property module calls pbt.main(property, rule)."""
import os, sys, json, mmap, struct, time, signal, tempfile, math

MASK = (1 << 64) - 1
class Rng:
    def __init__(self, s): self.s = s & MASK
    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & MASK; z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK; z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
        return z ^ (z >> 31)

class Fail(Exception):
    def __init__(self, kind, msg): super().__init__(kind, msg); self.kind = kind; self.msg = msg
def fail(kind, msg): raise Fail(kind, msg)
class Discard(Exception): pass

class Tape:
    def __init__(self, v=None, rng=None, shared=None):
        self.v = list(v or []); self.pos = 0; self.rng = rng; self.sh = shared
    def raw(self):
        if self.rng is not None:
            x = self.rng.next() & 0xffffffff; n = len(self.v)
            if self.sh is not None and n < (1 << 18):
                struct.pack_into("I", self.sh, 16 + 4 * n, x); struct.pack_into("Q", self.sh, 8, n + 1)
            self.v.append(x); self.pos = n + 1; return x
        if self.pos < len(self.v): x = self.v[self.pos]; self.pos += 1; return x
        return 0
    def below(self, n): return (self.raw() * n) >> 32 if n > 1 else 0
    def range(self, lo, hi): return lo if hi <= lo else lo + self.below(hi - lo + 1)
    def chance(self, num, den): return ((self.raw() * den) >> 32) >= den - num
    def pick(self, w):
        r = self.below(sum(w))
        for i, x in enumerate(w):
            if r < x: return i
            r -= x
        return 0
    def choose(self, seq): return seq[self.below(len(seq))]
    def unit(self): return self.raw() / 4294967296.0
    def uni(self, lo, hi): return lo + (hi - lo) * self.unit()
    def sgn(self): return -1.0 if self.chance(1, 2) else 1.0
    def val(self):
        k = self.pick((30, 20, 40, 6, 4))
        if k == 0: return float(self.range(1, 3)) * self.sgn()
        if k == 1: return self.range(1, 12) / 4.0 * self.sgn()
        if k == 2: return self.sgn() * self.uni(0.05, 2.0)
        if k == 3: return self.sgn() * 2.0 ** self.range(0, 3)
        return self.sgn() * 2.0 ** -self.range(0, 4)

class Ctx:
    def __init__(self, want=False):
        self.want = want; self.desc = []; self.nontrivial = False; self.sub = 0; self.labels = {}; self.maxm = {}
    def label(self, s): self.labels[s] = self.labels.get(s, 0) + 1
    def metric(self, s, x):
        x = float(x); x = x if x == x else 1e300
        if self.maxm.get(s, -math.inf) < x: self.maxm[s] = x
    def note(self, s):
        if self.want: self.desc.append(s() if callable(s) else s)

def hashv(v):
    h = 1469598103934665603
    for x in v: h = ((h ^ x) * 1099511628211) & MASK
    return h
CPU = float(os.environ.get("PBT_CASE_CPU", "20"))
def arm(s): signal.signal(signal.SIGPROF, signal.SIG_DFL); signal.setitimer(signal.ITIMER_PROF, s)
def disarm(): signal.setitimer(signal.ITIMER_PROF, 0)

def one(prop, tape, ctx):
    """returns (kind, msg), kind '' when the property held, None when discarded"""
    arm(CPU)
    try: prop(tape, ctx); return "", ""
    except Fail as f: return f.kind, f.msg
    except Discard: return None, ""
    finally: disarm()

def isolated(prop, v, want=False, cpu=None):
    r, w = os.pipe(); ef, en = tempfile.mkstemp(); sys.stdout.flush(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r); os.dup2(ef, 2); t = Tape(v); c = Ctx(want)
            global CPU
            if cpu: CPU = cpu
            k, m = one(prop, t, c)
            with os.fdopen(w, "w") as f: json.dump(dict(kind=k or "", msg=m, desc="\n".join(c.desc), used=t.pos), f)
        except BaseException as ex:
            os.write(2, ("harness exception %r" % (ex,)).encode()); import traceback; traceback.print_exc(); os._exit(4)
        os._exit(0)
    os.close(w); b = b""
    with os.fdopen(r, "rb") as f: b = f.read()
    _, st = os.waitpid(pid, 0)
    err = os.pread(ef, 12000, 0).decode(errors="replace"); os.close(ef); os.unlink(en)
    try: return json.loads(b.decode())
    except Exception: pass
    hang = os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF
    return dict(kind="hang" if hang else "crash", msg="did not finish within %g s of CPU time" % CPU if hang else ("killed by signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit status %d" % os.WEXITSTATUS(st)), desc=err, used=len(v))

def load(f): return [int(l) for l in open(f, errors="replace") if l.strip() and not l.startswith("#")]
def save(f, v):
    with open(f, "w") as g: g.write("".join("%d\n" % x for x in v))

def shrink(prop, src, dst, budget):
    best = load(src); o = isolated(prop, best)
    if not o["kind"]: print(json.dumps(dict(reproduced=False))); return
    kind = o["kind"]; t0 = time.time(); tries = 0; cpu = 5 if kind == "hang" else None
    def ok(c):
        nonlocal tries
        if time.time() - t0 > budget: return False
        tries += 1; return isolated(prop, c, cpu=cpu)["kind"] == kind
    if o["used"] < len(best) and ok(best[:o["used"]]): best = best[:o["used"]]
    prog = True
    while prog and time.time() - t0 < budget:
        prog = False; blk = max(1, len(best) // 2)
        while blk >= 1:
            i = len(best)
            while i > 0 and time.time() - t0 < budget:
                s = max(0, i - blk); c = best[:s] + best[i:]
                if len(c) < len(best) and ok(c): best = c; prog = True; i = min(s, len(best))
                else: i = s
            blk //= 2
        blk = max(1, len(best) // 4)
        while blk >= 1:
            for i in range(0, len(best), blk):
                if any(best[i:i + blk]):
                    c = best[:i] + [0] * len(best[i:i + blk]) + best[i + blk:]
                    if ok(c): best = c; prog = True
            blk //= 2
        for i in range(len(best)):
            lo, hi = 0, best[i]
            while hi - lo > 1 and hi - lo > hi // 64 and time.time() - t0 < budget:
                mid = lo + (hi - lo) // 2; c = list(best); c[i] = mid
                if ok(c): best = c; hi = mid; prog = True
                else: lo = mid
    while best and best[-1] == 0 and ok(best[:-1]): best = best[:-1]
    save(dst, best); print(json.dumps(dict(reproduced=True, kind=kind, tries=tries, size=len(best))))

def run(prop, seed, shard, nsh, ncases, cap, out):
    sh = mmap.mmap(-1, 16 + 4 * (1 << 18)); t0 = time.time(); start = shard; chunk = 0; crashes = []
    while start < ncases and time.time() - t0 < cap and len(crashes) < 3:
        struct.pack_into("QQ", sh, 0, start, 0); part = out + ".part%d" % chunk; chunk += 1; sys.stdout.flush(); pid = os.fork()
        if pid == 0:
            rc = 4
            try:
                fd = os.open(part + ".err", os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o644); os.dup2(fd, 2)
                ev = sub = disc = 0; seen = set(); lab = {}; mx = {}; samples = []; fails = []; i = start
                while i < ncases and time.time() - t0 < cap:
                    r = Rng((seed * 0x9E3779B97F4A7C15 + i * 0xD1B54A32D192ED03 + 12345) & MASK); r.next(); r.s ^= r.next()
                    struct.pack_into("QQ", sh, 0, i, 0); t = Tape(rng=r, shared=sh); c = Ctx(len(samples) < 2 and ev >= 3)
                    k, m = one(prop, t, c)
                    if k is None: disc += 1; i += nsh; continue
                    ev += 1; sub += c.sub
                    for a, b in c.labels.items(): lab[a] = lab.get(a, 0) + b
                    for a, b in c.maxm.items(): mx[a] = max(mx.get(a, b), b)
                    if c.nontrivial:
                        seen.add(hashv(t.v))
                        if c.want and not k: samples.append("\n".join(c.desc)[:3000])
                    i += nsh
                    if k:
                        tf = out + ".fail%d.tape" % (i - nsh); save(tf, t.v); fails.append(dict(tape=tf, kind=k, msg=m))
                        if len(fails) >= 2: break
                with open(part + ".hash", "wb") as f: f.write(struct.pack("%dQ" % len(seen), *seen))
                with open(part, "w") as f: json.dump(dict(evaluations=ev, sub=sub, nontrivial=len(seen), discarded=disc, labels=lab, max=mx, samples=samples, fails=fails, next=i), f)
                rc = 98 if fails else 0
            except BaseException:
                import traceback; traceback.print_exc(); rc = 5
            os._exit(rc)
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (0, 98): break
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 5:
            sys.stderr.write(open(part + ".err", errors="replace").read()[-3000:]); sys.exit(5)
        idx, ln = struct.unpack_from("QQ", sh, 0); v = list(struct.unpack_from("%dI" % ln, sh, 16)); tf = out + ".fail%d.tape" % idx; save(tf, v)
        hang = os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF
        crashes.append(dict(tape=tf, kind="hang" if hang else "crash", msg="case %d" % idx)); start = idx + nsh
    with open(out + ".crash", "w") as f: json.dump(dict(fails=crashes), f)

def series(prop, seed, nsh, a, b):
    """cases a, a + nsh, ... b of a run, one after another in one process"""
    r, w = os.pipe(); sys.stdout.flush(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r); o = dict(kind="", msg="", desc="")
            for i in range(a, b + 1, nsh):
                g = Rng((seed * 0x9E3779B97F4A7C15 + i * 0xD1B54A32D192ED03 + 12345) & MASK); g.next(); g.s ^= g.next(); c = Ctx(i == b); k, m = one(prop, Tape(rng=g), c)
                if k: o = dict(kind=k, msg=m, desc="\n".join(c.desc)); break
            with os.fdopen(w, "w") as f: json.dump(o, f)
        except BaseException: os._exit(4)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f: x = f.read()
    _, st = os.waitpid(pid, 0)
    print(x.decode() if x else json.dumps(dict(kind="crash" if not (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGPROF) else "hang", msg="the series of cases ends with status %d" % st, desc="")))

def main(prop, rule):
    a = sys.argv[2:]
    if a[0] == "rule": print(rule)
    elif a[0] == "run": run(prop, int(a[1]), int(a[2]), int(a[3]), int(a[4]), float(a[5]), a[6])
    elif a[0] == "series": series(prop, *map(int, a[1:5]))
    elif a[0] == "shrink": shrink(prop, a[1], a[2], float(a[3]))
    elif a[0] == "replay":
        o = isolated(prop, load(a[1]), True); print(json.dumps(dict(kind=o["kind"], msg=o["msg"], desc=o["desc"])))
    return 0
