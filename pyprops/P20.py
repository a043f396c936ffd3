import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from qpcase import *
import decimal, fractions, gc
RULE = "calls that are valid or differ from a valid one in one to three places (missing, extra, misspelt or misplaced arguments, wrong object types, integer/complex/object arrays, wrong ranks, inconsistent, empty or zero-stride dimensions, option values of the wrong type or on and beyond the edges of their range, hostile option dictionaries, warnings turned into errors), with AddressSanitizer in the interpreter; the outcome must be a result equal to the C library's or the expected exception, and a valid call afterwards must work; non-trivial when the call was mutated"
class IntSub(int): pass
class FloatSub(float): pass
class BadIndex:
    def __index__(self): raise ValueError("no")
    def __int__(self): raise ValueError("no")
    def __float__(self): raise ValueError("no")
class BadHash:
    def __hash__(self): return hash("MAXITER")
    armed = False
    def __eq__(self, o):
        if BadHash.armed: raise RuntimeError("comparison refused")
        return self is o
ANY, OK, TYPE, EXC = "any", "ok", "TypeError", "exception" # acceptable outcomes
def opt_case(t):
    """(key, value, outcome, library option or None, warns)"""
    inf, nan = math.inf, math.nan; key = t.choose(["MAXITER", "ABSTOL", "RELTOL", "SIGMA", "VERBOSE", "OUTPUT"])
    other = t.choose([None, "1", b"1", [], {}, (1,), 1j, np.array(1), np.array([1.0]), object(), BadIndex(), decimal.Decimal(1), fractions.Fraction(1, 2), run, type, Ellipsis])
    if key == "MAXITER":
        v = t.choose([1, 199, 2, 0, 200, -1, 201, 1000, 10**10, 2**31, 2**32 + 5, 2**63 - 1, 2**63, -2**63, -2**64, 10**30, 1.0, 5.0, 0.5, nan, np.float64(3), np.int64(3), IntSub(4), True, False, other])
        if isinstance(v, bool): return key, v, ANY, None, False
        if isinstance(v, int): return key, v, OK if 0 < v < 200 else TYPE, v, False
        return key, v, TYPE, None, False
    if key in ("ABSTOL", "RELTOL"):
        v = t.choose([1e-6, 0.5, 0.0, -0.0, 1.0, 1.0 - 2**-53, 5e-324, -5e-324, 1.0 + 2**-52, 2.0, -1e-6, nan, inf, -inf, 0, 1, True, np.float32(0.1), np.float64(0.1), FloatSub(0.25), FloatSub(1.5), 10**400, other])
        if isinstance(v, float): return key, v, OK if 0 < v < 1 else TYPE, float(v), False
        return key, v, TYPE, None, False
    if key == "SIGMA":
        v = t.choose([100.0, 0.5, 5e-324, 1e300, 0.0, -0.0, -1.0, -inf, nan, inf, 1, 0, True, np.float32(2), np.float64(2), FloatSub(3.0), other])
        if isinstance(v, float): return key, v, ANY if v == inf else OK if v > 0 else TYPE, float(v), False
        return key, v, TYPE, None, False
    if key == "VERBOSE":
        v = t.choose([0, -1, -2**31, -2**40, -2**63, 2**63, -2**64, 10**30, -10**30, 0.0, 1.0, "0", None, False, IntSub(0), np.int64(0), other])
        if isinstance(v, bool): return key, v, ANY, None, False
        if isinstance(v, int): return key, v, OK if 0 <= v < 2**63 else TYPE, None, False
        return key, v, TYPE, None, False
    v = t.choose([0, 1, 2, 3, 10**10, -1, -2**63, 2**63, 10**30, -10**30, 1.0, 2.0, "2", None, True, np.int64(2), IntSub(2), other])
    if isinstance(v, bool): return key, v, ANY, None, False
    if isinstance(v, int): return key, v, OK, v if 0 <= v < 2**63 else None, not 0 <= v < 2**63
    return key, v, OK, None, True
def bad_array(t, a, k):
    """(object, outcome, what)"""
    w = t.below(19); sq = lambda: a.reshape(-1)
    if w == 0: return a.astype(t.choose(["i8", "i4", "u1", "?", "c16", "c8", "S4", "U4", "M8[s]", "m8[s]"])), TYPE, "dtype"
    if w == 1: return a.astype(object), TYPE, "object array"
    if w == 2: return np.zeros(a.shape, dtype=[("x", "f8"), ("y", "f8")]), TYPE, "structured"
    if w == 3: return a.tolist(), TYPE, "list"
    if w == 4: return t.choose([None, 1, 1.0, "a", object(), memoryview(a.copy() if a.size else np.zeros(1)), np.float64(1), BadIndex(), (), {}]), TYPE, "object"
    if w == 5: return a[None], TYPE, "rank up front"
    if w == 6: return a[..., None], TYPE, "rank up behind"
    if w == 7: return sq() if a.ndim == 2 else a.reshape(-1, 1), TYPE, "rank changed"
    if w == 8: return np.array(3.0), TYPE, "rank 0"
    if w == 9: ax = t.below(a.ndim); s = list(a.shape); s[ax] += t.choose([1, 2, 7]); return np.ones(s), TYPE, "longer"
    if w == 10:
        ax = t.below(a.ndim); s = list(a.shape)
        if s[ax] == 0: return np.ones([x + 1 for x in s]), TYPE, "longer"
        s[ax] -= t.choose([1, s[ax]]); return np.ones(s), TYPE, "shorter"
    if w == 11: return np.zeros([0] * a.ndim), TYPE, "empty"
    if w == 12: s = list(a.shape); s = s[::-1]; return (np.ones(s), TYPE if s != list(a.shape) else ANY, "swapped dimensions")
    if w == 13: return np.zeros((1,) * 32), TYPE, "rank 32"
    if w == 14: s = list(a.shape); s[t.below(a.ndim)] = t.choose([2**20, 2**31, 2**32, 2**40]) + {'c': 0, 'h': 1, 'P': 2, 'G': 3, 'A': 4, 'b': 5}[k]; s = tuple(s); return np.lib.stride_tricks.as_strided(np.zeros(1), shape=s, strides=(0,) * a.ndim) if 0 not in s else np.zeros(s[:0] + (3,) * a.ndim if a.shape != (3,) * a.ndim else (4,) * a.ndim), TYPE, "huge zero-stride"
    if w == 17: # as many entries, in another shape
        if a.ndim == 1: return np.ones(a.shape + (1,)), TYPE, "rank changed"
        ds = [x for x in range(1, a.size + 1) if a.size % x == 0] if 0 < a.size < 2000 else [1]; x = t.choose(ds); y = a.size // x
        return np.ascontiguousarray(np.ravel(a)).reshape(x, y), TYPE if (x, y) != a.shape else ANY, "reshaped"
    if w == 18 and not FINALIZE: w = 15
    if w == 18: return (a if t.chance(1, 2) else np.asfortranarray(a)).astype(t.choose(["f8", "f4", ">f8"])).view(Fin), ANY, "copy refused"
    if w == 15: return np.ma.masked_array(a), OK, "masked array"
    return np.rec.array(a.copy()) if a.size else a, ANY, "record array"
def prop(t, c):
    d, kind = gen_problem(t, False); eq = t.chance(1, 2); names = ["c", "h", "P", "G"] + (["A", "b"] if eq else []); args = {k: d[k] for k in names}; o = {}; lib = {}; level = None; expect = OK; why = []; warn = False; extra = {}; drop = None; misspell = None; raw_opts = None
    nm = t.pick((2, 6, 3, 1))
    raw = False; oe = []
    for _ in range(nm):
        k = t.pick((5, 5, 1, 1, 1, 1, 1))
        if k == 0: a = t.choose(names); args[a], _, w = bad_array(t, d[a], a); why.append("%s %s" % (a, w))
        elif k == 1:
            key, v, e, lv, wn = opt_case(t)
            if key in o: continue
            o[key] = v; oe.append(e); why.append("%s=%r" % (key, v))
            if key in ("MAXITER", "ABSTOL", "RELTOL", "SIGMA"):
                if lv is not None: lib[key] = lv
            elif key == "OUTPUT": level = lv
            warn |= wn
        elif k == 2: drop = t.choose(["c", "h", "P", "G"]); why.append("no " + drop)
        elif k == 3: extra[t.choose(["x", "opts2", "C", "Q", "options"])] = 1; why.append("unknown keyword")
        elif k == 4: raw_opts = t.choose([None, [], (), 1, "opts", object(), np.zeros(3)]); raw = True; why.append("opts=%r" % (raw_opts,))
        elif k == 5: misspell = "dup"; why.append("argument given twice")
        else: o[BadHash() if t.chance(1, 2) else t.choose([1, "maxiter", None, ("MAXITER",)])] = 1; why.append("odd key")
    vast = t.chance(1, 400)
    if vast: # consistent, but the copy of P does not fit any address space
        eq = False; names = ["c", "h", "P", "G"]; z = lambda *s: np.lib.stride_tricks.as_strided(np.zeros(1), shape=s, strides=(0,) * len(s)); N = 2**22; args = dict(c=z(N), h=z(1), P=z(N, N), G=z(1, N)); why.append("vast zero-stride")
    elif t.chance(1, 60): # consistent, with one dimension that is zero throughout
        z = t.below(3 if eq else 2); n, m, p = (0 if i == z else v for i, v in enumerate((d["c"].shape[0], d["h"].shape[0], d["b"].shape[0]))); args = dict(c=d["c"][:n], h=d["h"][:m], P=d["P"][:n, :n], G=d["G"][:m, :n]); why.append("zero " + ("variables", "inequalities", "equations")[z])
        if eq: args.update(A=d["A"][:p, :n], b=d["b"][:p])
    # what the documentation says about the call as it now stands
    def good(k, nd): v = args[k]; return isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.ndim == nd
    data_ok = all(good(k, 1 if k in "chb" else 2) for k in names)
    if data_ok:
        n = args["c"].shape[0]; m = args["h"].shape[0]; data_ok = n > 0 and m > 0 and args["P"].shape == (n, n) and args["G"].shape == (m, n)
        if eq and data_ok: data_ok = args["A"].shape == (args["b"].shape[0], n)
    hostile = any(isinstance(x, BadHash) for x in o)
    if drop or extra or misspell or raw or not data_ok: expect = TYPE
    elif hostile: expect = ANY
    elif TYPE in oe: expect = TYPE
    elif ANY in oe: expect = ANY
    else: expect = OK
    if vast and expect == OK: expect = MemoryError
    if expect == OK and any(type(v) is Fin for v in args.values()): expect = ANY
    as_error = warn and t.chance(1, 2)
    if as_error and expect in (OK, MemoryError): expect = UserWarning if not any(type(v) is Fin for v in args.values()) else ANY
    elif as_error and expect != ANY: expect = TYPE if drop or extra or misspell or raw or not data_ok else EXC # whichever option is noticed first
    kw = dict(args); pos = []
    for k in names[:t.below(len(names) + 1)]:
        if k in kw and k != drop: pos.append(kw.pop(k))
        else: break
    if drop: kw.pop(drop, None)
    if misspell == "dup":
        if pos: kw["c"] = d["c"]
        else: pos = [d["c"]]; kw["c"] = d["c"]
    kw.update(extra)
    if raw: kw["opts"] = raw_opts
    elif o or t.chance(1, 3): kw["opts"] = o
    c.nontrivial = nm > 0; c.note(lambda: "expected outcome %s; changes: %s; warnings as errors: %s\n%s" % (expect, "; ".join(why) or "none", as_error, show({k: v if isinstance(v, np.ndarray) and v.size < 1000 and v.ndim < 3 else repr(type(v)) + repr(getattr(v, "shape", "")) for k, v in args.items()}, o)))
    for w in why: c.label(w.split("=")[0] if "=" in w else w)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("error" if as_error else "always"); exc = None; r = None; fin = t.below(4); safe = Stdout()
        with safe:
            BadHash.armed = True; Fin.left = fin
            try: r = run(*pos, **kw)
            except BaseException as ex: exc = ex
            BadHash.armed = False; Fin.left = -1
    if exc is not None:
        if isinstance(exc, SystemError): fail("error left pending", "%r caused by %r" % (exc, exc.__cause__))
        if expect == OK: fail("valid call rejected", "%r" % (exc,))
        if expect == TYPE and not isinstance(exc, TypeError): fail("wrong exception", "%r instead of TypeError" % (exc,))
        if expect is MemoryError and not isinstance(exc, MemoryError): fail("wrong exception", "%r instead of MemoryError" % (exc,))
        if expect is UserWarning and not isinstance(exc, UserWarning): fail("wrong exception", "%r instead of the warning" % (exc,))
        if not str(exc): fail("wrong exception", "%r carries no message" % (exc,))
        c.label("rejected")
    else:
        if type(r) is not dict: fail("result", "returned %r" % (r,))
        if expect not in (OK, ANY): fail("bad call accepted", "expected %s" % (expect,))
        if expect == OK:
            if [w.category for w in ws] != ([UserWarning] if warn else []): fail("warning", "warnings given: %s" % [str(w.message) for w in ws])
            arrs = {k: np.asarray(v) for k, v in args.items()}
            check_result(r, reference(arrs, lib), level); c.sub += 1
        c.label("accepted")
    # still in working order
    del r, exc; d2, _ = gen_problem(t); a2 = {k: d2[k] for k in names}; check_result(run(**a2, opts={"OUTPUT": 2}), reference(a2, {}), 2, "the next valid call:"); c.sub += 1
pbt.main(prop, RULE)
