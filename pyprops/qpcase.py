"""Generated calls of the Python module and the C reference."""
import os, sys, ctypes, tempfile, math, warnings
EXT = os.path.abspath(sys.argv[1]); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.path.insert(0, EXT)
import numpy as np
import pbt
from pbt import fail
import qpSWIFT
assert os.path.dirname(os.path.abspath(qpSWIFT.__file__)) == EXT
_mod = ctypes.CDLL(qpSWIFT.__file__)
def run(*a, **k): _mod.vf_reset(); return qpSWIFT.run(*a, **k)
ref = ctypes.CDLL(os.path.join(EXT, "libref.so")); libc = ctypes.CDLL(None)
_dp = ctypes.c_void_p
ref.ref_solve.argtypes = [ctypes.c_long] * 3 + [_dp] * 12
np.seterr(all="ignore")

def reference(args, opts):
    """the C library on the same numbers; args: dict of arrays, opts: dict of library-level options"""
    n = args["c"].shape[0]; m = args["h"].shape[0]; eq = args.get("A") is not None and args.get("b") is not None; p = args["b"].shape[0] if eq else 0
    d = {k: np.array(args[k], dtype=np.float64, order="C", copy=True) for k in ("c", "h", "P", "G") + (("A", "b") if eq else ())}
    o = np.array([opts.get(k, math.nan) for k in ("MAXITER", "ABSTOL", "RELTOL", "SIGMA")] + [float(opts.get("VERBOSE", 0))]); x = np.zeros(n); y = np.zeros(max(p, 1)); z = np.zeros(m); s = np.zeros(m); out = np.zeros(12); ptr = lambda a: a.ctypes.data
    ref.vf_reset(); ref.ref_solve(n, m, p, ptr(d["P"]), ptr(d["A"]) if p else None, ptr(d["G"]), ptr(d["c"]), ptr(d["h"]), ptr(d["b"]) if p else None, ptr(o), ptr(x), ptr(y), ptr(z), ptr(s), ptr(out))
    return dict(x=x, y=y[:p], z=z, s=s, flag=int(out[0]), it=int(out[1]), fval=float(out[2]), eq=eq, p=p, set=[opts.get(k, out[3 + i]) for i, k in enumerate(("MAXITER", "ABSTOL", "RELTOL", "SIGMA"))], times=out[8:12] if ref.vf_reset() else None)

def bits(a): return np.ascontiguousarray(a, dtype=np.float64).tobytes()
def same(a, b): # equal values; NaNs match whatever their payload
    a = np.asarray(a, dtype=np.float64); b = np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.all((a == b) & (np.signbit(a) == np.signbit(b)) | (np.isnan(a) & np.isnan(b))))

# ------------------------------------------------------------------ problem data
def gen_problem(t, big=False, tall_ok=True):
    if t.chance(1, 150): # larger than anything a byte counts
        tall = t.chance(1, 12) and tall_ok # or two bytes
        r = np.random.RandomState(t.below(2 ** 31)); n = t.range(1, 160); m = t.range(1, 300); p = t.range(0, min(n, 140)); den = t.choose([1.0, 0.1, 0.02])
        if tall: n = t.range(1, 3); m = t.choose([32766, 65534, 66000]) + t.range(0, 4); p = t.range(0, min(n - 1, 1))
        u = lambda *s: r.uniform(-1, 1, s) * (r.uniform(0, 1, s) < den)
        P = np.diag(r.uniform(0.5, 2, n)); k = u(n, n); P = P + (k @ k.T if den < 1 else 0) + (np.triu(u(n, n), 1) * 0.01 if t.chance(1, 3) else 0); G = u(m, n); A = u(p, n); A[range(p), range(p)] += 3.0
        x0 = r.uniform(-1, 1, n); z0 = r.uniform(0, 1, m) * (r.uniform(0, 1, m) < 0.5); y0 = r.uniform(-1, 1, p)
        return dict(c=-(P @ x0 + G.T @ z0 + A.T @ y0), h=G @ x0 + np.where(z0 > 0, 0, r.uniform(0.1, 2, m)), P=P, G=G, A=A, b=A @ x0), "tall" if tall else "large"
    n = t.range(1, 30) if big else (t.range(1, 4) if t.chance(1, 2) else t.range(1, 9)); m = t.range(1, 40) if big else t.range(1, 12); p = min(t.range(0, n) if big or t.chance(1, 12) else t.pick((4, 2, 1, 1)), n)
    kind = t.pick((8, 1, 1)) # well posed, arbitrary, special values
    u = lambda *s: np.array([t.val() if not t.chance(1, 4) else 0.0 for _ in range(int(np.prod(s)))]).reshape(s) if s and all(s) else np.zeros(s)
    F = u(n, n); P = F @ F.T + (np.eye(n) * t.choose([1.0, 0.1, 0.5])); G = u(m, n); A = u(p, n)
    for i in range(p): A[i, (i * 7) % n] += 3.0
    x0 = u(n); s0 = np.array([t.uni(0.1, 2) for _ in range(m)]); z0 = np.array([0.0 if t.chance(1, 2) else t.uni(0.1, 2) for _ in range(m)]); y0 = u(p)
    c = -(P @ x0 + G.T @ z0 + A.T @ y0); h = G @ x0 + np.where(z0 > 0, 0, s0); b = A @ x0
    if kind == 1: P, G, A, c, h, b = (np.array([t.val() * 10.0 ** t.range(-3, 3) for _ in range(a.size)]).reshape(a.shape) for a in (P, G, A, c, h, b))
    if kind == 2:
        for a in (P, G, A, c, h, b):
            if a.size and t.chance(1, 2): a.reshape(-1)[t.below(a.size)] = t.choose([math.nan, math.inf, -math.inf, 1e300, 5e-324, -0.0, 1e-310])
    return dict(c=c, h=h, P=P, G=G, A=A, b=b), ("well posed", "arbitrary", "special values")[kind]

class Sub(np.ndarray): pass
def _keep_handler(): # numpy 1.26 drops one reference too many of its memory handler whenever __array_finalize__ raises: pile some up
    from numpy.core import _multiarray_umath as u
    ctypes.pythonapi.PyCapsule_GetPointer.restype = ctypes.c_void_p; ctypes.pythonapi.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_void_p]
    tab = ctypes.cast(ctypes.pythonapi.PyCapsule_GetPointer(u._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    h = ctypes.PYFUNCTYPE(ctypes.py_object)(tab[305])()
    if type(h).__name__ != "PyCapsule" or "mem_handler" not in repr(h): raise RuntimeError(repr(h))
    ctypes.c_ssize_t.from_address(id(h)).value += 10**8
try: _keep_handler(); FINALIZE = True
except Exception: FINALIZE = False
class Fin(np.ndarray): # creating a copy may fail
    left = -1
    def __array_finalize__(self, o):
        if Fin.left < 0: return
        Fin.left -= 1
        if Fin.left < 0: raise ValueError("no more copies")
LAYOUTS = ["C", "F", "strided", "reversed", "offset", "read-only", "unaligned", "subclass", "transposed base", "broadcast"]
def relay(t, a, kinds=(10, 3, 3, 2, 2, 2, 2, 1, 2, 1)):
    """the same values in another dtype and memory layout; returns (array, description, base to watch)"""
    dt = np.dtype(t.choose(["f8", "f8", "f8", "f4", ">f8", ">f4", "f2", ">f2", "g"])); a = a.astype(dt)
    k = LAYOUTS[t.pick(kinds)]; base = None
    if k == "F": r = np.array(a, order="F")
    elif k == "strided":
        st = t.range(2, 3); base = np.full(tuple(d * st + 1 for d in a.shape), 7, dtype=dt); r = base[tuple(slice(0, d * st, st) for d in a.shape)]; r[...] = a
    elif k == "reversed":
        base = np.array(a[tuple(slice(None, None, -1) for _ in a.shape)]); r = base[tuple(slice(None, None, -1) for _ in a.shape)]
    elif k == "offset":
        base = np.full(tuple(d + 3 for d in a.shape), 7, dtype=dt); r = base[tuple(slice(1, d + 1) for d in a.shape)]; r[...] = a
    elif k == "read-only": r = np.array(a); r.setflags(write=False)
    elif k == "unaligned":
        base = np.zeros(a.nbytes + 3, dtype="u1"); r = np.frombuffer(base.data, dtype=dt, offset=1, count=a.size).reshape(a.shape) if a.size else a; r = r if a.size else np.array(a)
        if a.size: r.setflags(write=True); r[...] = a
    elif k == "subclass": r = np.array(a).view(np.matrix) if a.ndim == 2 and t.chance(1, 2) else np.array(a).view(Sub)
    elif k == "transposed base": base = np.array(a.T); r = base.T
    elif k == "broadcast" and a.ndim and a.size: # constant along the first axis
        r = np.broadcast_to(np.array(a[:1]), a.shape)
    else: r = np.array(a); k = "C"
    if t.chance(1, 10) and r.flags.writeable: r.setflags(write=False); k += " read-only"
    return r, "%s %s" % (dt.str, k), base if base is not None else r

def share(t, d, eq):
    """all arrays are views into one buffer (numbers of a problem d); returns (arrays, description)"""
    n, m, p = d["c"].shape[0], d["h"].shape[0], d["b"].shape[0]; k = t.pick((3, 2, 2, 2)) if m < 2000 else 2; dt = np.dtype(t.choose(["f8", "f8", "f4", ">f8", "g"])); a = {}
    if k == 0: # blocks of the KKT matrix, the right-hand side in one vector
        K = np.zeros((n + p + m, n + p + m), dtype=dt, order=t.choose(["C", "F"])); v = np.zeros(n + p + m, dtype=dt); a = dict(P=K[:n, :n], c=v[:n], b=v[n:n + p], h=v[n + p:]); low = t.chance(1, 2)
        a["A"] = K[n:n + p, :n] if low else K[:n, n:n + p].T; a["G"] = K[n + p:, :n] if t.chance(1, 2) else K[:n, n + p:].T; what = "blocks of one matrix"
        for q in a: a[q][...] = d[q]
    elif k == 1: # same base, other strides: G (and A) is P, its transpose or some of its rows, backwards
        P = np.array(d["P"], dtype=dt, order=t.choose(["C", "F"])); f = [lambda: P, lambda: P.T, lambda: P[::-1], lambda: P[:, ::-1], lambda: P[:max(1, n - 1)], lambda: P[t.below(n):]]; a["P"] = P; a["G"] = t.choose(f)(); a["A"] = t.choose(f)()
        v = np.resize(np.array(d["h"], dtype=dt), n); a["c"] = v; a["h"] = (v[::-1] if t.chance(1, 2) else v)[:a["G"].shape[0]]; a["b"] = (v[::-1] if t.chance(1, 2) else v)[:a["A"].shape[0]]; what = "views of P and c"
    elif k == 2: # everything in one flat buffer, back to back
        names = ["c", "h", "P", "G", "A", "b"]; t.below(6) and names.reverse(); buf = np.zeros(sum(d[q].size for q in names), dtype=dt); o = 0
        for q in names: a[q] = buf[o:o + d[q].size].reshape(d[q].shape); a[q][...] = d[q]; o += d[q].size
        what = "slices of one buffer"
    else: # the same object twice
        a = {q: np.array(d[q], dtype=dt) for q in d}; a["G"] = a["P"]; a["h"] = a["c"] if t.chance(1, 2) else np.array(np.resize(d["h"], n), dtype=dt); a["A"] = a["P"] if t.chance(1, 2) else a["A"]; a["b"] = a["c"] if a["A"] is a["P"] else a["b"]; what = "the same object twice"
    return a, what

def show(args, opts):
    return "\n".join("%s = %s" % (k, np.array2string(np.asarray(v), threshold=4000, precision=17) if v is not None else None) for k, v in args.items()) + "\nopts = %r" % (opts,)

class Stdout:
    """captures file descriptor 1"""
    def __enter__(self):
        sys.stdout.flush(); libc.fflush(None); self.f = tempfile.TemporaryFile(); self.old = os.dup(1); os.dup2(self.f.fileno(), 1); return self
    def __exit__(self, *a):
        libc.fflush(None); os.dup2(self.old, 1); os.close(self.old); self.f.seek(0); self.text = self.f.read().decode(errors="replace"); self.f.close()

def check_result(r, R, level, what=""):
    """r: returned dictionary, R: reference, level: output level"""
    if type(r) is not dict: fail("result", "%s returned %r" % (what, type(r)))
    want = {1: {"sol", "basicInfo"}, 2: {"sol", "basicInfo", "advInfo"}}.get(level, {"sol"})
    if set(r) != want: fail("keys", "%s keys %s for output level %s" % (what, sorted(r), level))
    def arr(v, ref, name):
        if type(v) is not np.ndarray or v.dtype != np.dtype("f8") or v.ndim != 1: fail("result", "%s %s is %r" % (what, name, getattr(v, "dtype", type(v))))
        if not same(v, ref): fail("values", "%s %s = %s, the C library gives %s" % (what, name, v, ref))
    arr(r["sol"], R["x"], "x")
    if level in (1, 2):
        b = r["basicInfo"]
        if type(b) is not dict or set(b) != {"ExitFlag", "Iterations", "Setup_Time", "Solve_Time"}: fail("keys", "%s basicInfo keys %s" % (what, sorted(b)))
        for k, w in (("ExitFlag", R["flag"]), ("Iterations", R["it"])):
            if type(b[k]) is not int or b[k] != w: fail("values", "%s %s = %r, the C library gives %r" % (what, k, b[k], w))
        for k in ("Setup_Time", "Solve_Time"):
            if type(b[k]) is not float or not b[k] >= 0: fail("values", "%s %s = %r" % (what, k, b[k]))
        exact = R["times"] is not None # the library read the stand-in clock: its times are reproducible
        def time(v, i, k):
            if exact and v != R["times"][i]: fail("times", "%s %s = %r, the C library takes %r on the same clock" % (what, k, v, R["times"][i]))
        time(b["Setup_Time"], 0, "Setup_Time"); time(b["Solve_Time"], 1, "Solve_Time")
    if level == 2:
        a = r["advInfo"]; want = {"fval", "kktTime", "ldlTime", "z", "s"} | ({"y"} if R["eq"] else set())
        if type(a) is not dict or set(a) != want: fail("keys", "%s advInfo keys %s" % (what, sorted(a)))
        if type(a["fval"]) is not float or not same(a["fval"], R["fval"]): fail("values", "%s objective %r, the C library gives %r" % (what, a["fval"], R["fval"]))
        arr(a["z"], R["z"], "z"); arr(a["s"], R["s"], "s")
        if R["eq"]: arr(a["y"], R["y"], "y")
        time(a["kktTime"], 2, "kktTime"); time(a["ldlTime"], 3, "ldlTime")
        e = 1e-9 + 1e-9 * r["basicInfo"]["Solve_Time"]
        if not (0 <= a["ldlTime"] <= a["kktTime"] + e and a["kktTime"] <= r["basicInfo"]["Solve_Time"] + e): fail("times", "%s factorisation %g, KKT %g, solve %g" % (what, a["ldlTime"], a["kktTime"], r["basicInfo"]["Solve_Time"]))
