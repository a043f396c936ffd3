import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from qpcase import *
import gc, threading
RULE = "the same call, accepted or rejected at a generated place, repeated with every array type and layout and output level: reference counts of every argument, option value and data type, heap bytes (mallinfo2 with the interpreter on malloc) and object counts before and after; results kept across further calls and overwritten arguments; cases with several Python threads solving different problems, or one problem with shared arrays and a shared option dictionary, at once at different switch intervals; non-trivial when the call carries options or equalities or runs threads"
class MI(ctypes.Structure): _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]
libc.mallinfo2.restype = MI; HEAP = os.environ.get("P21_HEAP") == "1"
def heap(): m = libc.mallinfo2(); return m.uordblks + m.hblkhd
def counts(w):
    out = []
    for i in range(len(w)): out.append(sys.getrefcount(w[i]))
    return out
import weakref
NULLFD = os.open(os.devnull, os.O_WRONLY)
def refs(r): return [weakref.ref(v) for v in list(r.values()) + list(r.get("advInfo", {}).values()) if isinstance(v, np.ndarray)]
def leak_case(t, c):
    d, kind = gen_problem(t, t.chance(1, 20)); eq = t.pick((1, 2, 1, 1)); names = ["c", "h", "P", "G"] + (["A", "b"] if eq == 1 else ["A"] if eq == 2 else ["b"] if eq == 3 else []); args = {}; desc = {}
    for k in names: args[k], desc[k], _ = relay(t, d[k]) if not t.chance(1, 4) else (d[k], "f8 C", None)
    o = {}; lib = {}; level = t.choose([None, 1, 2, 2, 5, 0, 3])
    if t.chance(1, 2): o["MAXITER"] = t.range(1, 30); lib["MAXITER"] = o["MAXITER"]
    if t.chance(1, 2): o["ABSTOL"] = float(t.choose(["1e-7", "1e-5"])); lib["ABSTOL"] = o["ABSTOL"]
    if t.chance(1, 2): o["RELTOL"] = float(t.choose(["1e-7", "1e-5"])); lib["RELTOL"] = o["RELTOL"]
    if t.chance(1, 2): o["SIGMA"] = float(t.choose(["0.5", "100"])); lib["SIGMA"] = o["SIGMA"]
    if t.chance(1, 4): o["VERBOSE"] = int(t.choose(["0", "0", "1000", "70000"])) # beyond the cached small integers
    if level is not None: o["OUTPUT"] = level if t.chance(3, 4) else int(str(level + 1000)) if level > 2 else level
    rej = t.pick((3, 1, 1)); what = "accepted"; big = int("1234567890123"); warn = False
    if rej == 1: # an option is refused
        key = t.choose(["MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE", "OUTPUT"]); bad = t.choose([float("-3.5"), -big, big, "text" + str(t.range(0, 9)), [1.0], object()])
        if key in ("VERBOSE", "OUTPUT") and bad is big: bad = -big
        o[key] = bad; what = "option " + key; warn = key == "OUTPUT"
        if warn and t.chance(1, 2): what = "OUTPUT warning"; 
    elif rej == 2:
        k = t.choose(names); w = t.below(6); w = w if FINALIZE else w % 5; what = k + " refused"
        if w == 5: args[k] = np.array(args[k]).view(Fin); what = k + " copy refused"
        else: args[k] = args[k].astype("i8") if w == 0 and kind == "well posed" else args[k][None] if w == 1 else np.ones([x + 1 for x in args[k].shape]) if w == 2 else args[k].astype("c16") if w == 3 else np.zeros((0,) * args[k].ndim)
    o0 = dict(o); fin = t.below(3) if any(type(a) is Fin for a in args.values()) else -1; aserr = warn and what != "OUTPUT warning"; mode = t.below(3)
    kw = dict(args)
    if o: kw["opts"] = o
    pos = tuple(kw.pop(k) for k in names[:4]) if mode == 1 else ()
    c.nontrivial = eq == 1 or bool(o); c.label(what.split(" ")[0] if what != "OUTPUT warning" else "warned"); c.label("output level %s" % level)
    c.note(lambda: "%s, level %s, layouts %s\n%s" % (what, level, desc, show(args, o)))
    talk = bool(o.get("VERBOSE"))
    if talk: c.label("talking")
    def once():
        Fin.left = fin
        try:
            if not talk: r = run(*pos, **kw)
            else:
                keep = os.dup(1); os.dup2(NULLFD, 1)
                try: r = run(*pos, **kw)
                finally: libc.fflush(None); os.dup2(keep, 1); os.close(keep)
        except Exception as ex: return None
        finally: Fin.left = -1
        return r
    watch = list(args.values()) + [a.base for a in args.values() if a.base is not None] + list(o.values()) + list(o) + [o, np.dtype("f8"), np.dtype("f4"), np.dtype(">f8"), TypeError, UserWarning, np.ndarray, dict, float, run, None]
    watch += [a.dtype for a in args.values()]
    with warnings.catch_warnings():
        warnings.simplefilter("error" if aserr else "ignore")
        r = once(); r = None; before = counts(watch); K = 3 if kind == "tall" else 5
        for _ in range(K): r = once(); r = None
        after = counts(watch)
        for x, a, b in zip(watch, before, after):
            if abs(b - a) >= K: fail("reference count", "%s call: reference count of %s went from %d to %d in %d calls" % (what, type(x).__name__ + " " + repr(x)[:60], a, b, K))
        c.sub += K
        if o != o0 or list(o) != list(o0): fail("input modified", "the call changed the option dictionary")
        if HEAP and kind != "tall":
            gc.disable()
            for _ in range(10): once()
            g = []; N = 8; nb = []
            for _ in range(3):
                h0 = heap(); b0 = sys.getallocatedblocks()
                for _ in range(N): once()
                g.append(heap() - h0); nb.append(sys.getallocatedblocks() - b0)
            if min(g) >= 8 * N or min(nb) >= N: # a leaking call loses a chunk (32 bytes at least) or an object every time; fragmentation and free lists settle
                N = 30; g = []; nb = []
                for _ in range(6 if kind == "large" else 12):
                    h0 = heap(); b0 = sys.getallocatedblocks()
                    for _ in range(N): once()
                    g.append(heap() - h0); nb.append(sys.getallocatedblocks() - b0)
            gc.enable(); c.sub += 34
            if min(g) >= 24 * N or min(nb) >= N: fail("leak", "%s call: heap grew by %s bytes, objects by %s, in windows of %d calls" % (what, g, nb, N))
        r = once()
        r2 = once()
        if r2 is not None:
            ws = refs(r2); del r2
            for w in ws:
                if w() is not None: fail("leak", "%s call: a result array stays alive after the result is dropped" % what)
        r2 = None
    if r is not None: # results own their data
        R = reference(args, lib); lv = None if warn else level; arrs = [r["sol"]] + ([r["advInfo"][k] for k in ("y", "z", "s") if k in r["advInfo"]] if "advInfo" in r else [])
        for a in arrs:
            if not (a.flags.owndata and a.flags.writeable and a.base is None): fail("ownership", "a result array does not own its data")
            for b in list(args.values()) + [x for x in arrs if x is not a]:
                if a.size and b.size and np.may_share_memory(a, b): fail("ownership", "a result array shares memory")
        for a in args.values():
            if a.flags.writeable and a.size: a[...] = 3.25
        d2, _ = gen_problem(t, False, False); run(d2["c"], d2["h"], d2["P"], d2["G"], d2["A"], d2["b"], {"OUTPUT": 2}); del d2; gc.collect(0)
        check_result(r, R, lv, "kept result:")
def thread_case(t, c):
    c.nontrivial = True; nt = t.range(2, 4); reps = t.range(2, 5); jobs = []; c.label("threads")
    old = sys.getswitchinterval(); sys.setswitchinterval(t.choose([1e-6, 1e-5, 5e-3]))
    shared = t.chance(1, 3)
    for i in range(nt):
        if shared and i: jobs.append(jobs[0]); continue
        d, _ = gen_problem(t, t.chance(1, 2), False); eq = t.chance(1, 2); a = {k: d[k] for k in ["c", "h", "P", "G"] + (["A", "b"] if eq else [])}; l = t.range(0, 2); o = {"OUTPUT": l, "MAXITER": t.range(2, 60)}; jobs.append((a, o, reference(a, o), l)); c.note(lambda: show(a, o))
    out = []; bar = threading.Barrier(nt)
    def work(a, o, R, l):
        try:
            bar.wait()
            for _ in range(reps): check_result(run(**a, opts=o), R, l, "in a thread:")
        except BaseException as ex: out.append(ex)
    th = [threading.Thread(target=work, args=j) for j in jobs]
    for x in th: x.start()
    for x in th: x.join()
    sys.setswitchinterval(old); c.sub += nt * reps
    if out: raise out[0]
def prop(t, c):
    k = 1 if os.environ.get("P21_THREADS") == "1" else t.pick((14, 1))
    (leak_case, thread_case)[k](t, c)
pbt.main(prop, RULE)
