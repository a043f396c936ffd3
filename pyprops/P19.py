import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from qpcase import *
RULE = "generated problems (well posed, arbitrary, with special values) passed as arrays of every floating type, byte order and memory layout (also read-only, unaligned, broadcast, subclass arrays and views sharing memory with one another), positionally or by keyword, with and without A and b, with random option dictionaries (values over the whole range and on its edges, unknown keys, dictionary subclasses); results, keys, types and printed output against the C library called through a C shim; non-trivial when the reference takes at least one iteration"
class D(dict): pass
def gen_opts(t):
    o = {}; lib = {}
    if t.chance(1, 2): v = t.choose([1, 199, 2, 3, 5, 7, 10, 50, 100, 127, 128, 129, True]) if not t.chance(1, 5) else t.range(1, 199); o["MAXITER"] = v; lib["MAXITER"] = v
    if t.chance(1, 3): v = t.choose([1e-6, 1e-2, 0.5, 0.999999, 1e-9, 1e-12, 5e-324, 1e-4]); o["ABSTOL"] = v; lib["ABSTOL"] = v
    if t.chance(1, 3): v = t.choose([1e-6, 1e-2, 0.5, 0.999999, 1e-9, 1e-12, 5e-324, 1e-4]); o["RELTOL"] = v; lib["RELTOL"] = v
    if t.chance(1, 3): v = t.choose([100.0, 1.0, 0.5, 0.1, 1e-3, 1e-9, 1e9, 0.01]); o["SIGMA"] = v; lib["SIGMA"] = v
    for k in ("ABSTOL", "RELTOL", "SIGMA"):
        if k in o and t.chance(1, 6): o[k] = np.float64(o[k])
    verbose = t.choose([0, 1, 2, 7, True, 256, 2**31, 2**32, 2**63 - 1]) if t.chance(1, 6) else None
    if verbose is not None: o["VERBOSE"] = verbose
    level = t.choose([None, 0, 1, 2, 2, 2, 1, 3, 10, 1000]) if not t.chance(1, 10) else t.choose([True, False, 257, 258, 2**32 + 1, 2**32 + 2, 2**63 - 1, 2**31])
    if level is not None: o["OUTPUT"] = level
    if t.chance(1, 8): o[t.choose(["UNKNOWN", "maxiter", "Abstol", 3, None, (1, 2), "PERMUT"])] = t.choose([1, "x", None, 3.5])
    if t.chance(1, 10): o = D(o)
    return o, lib, verbose or 0, level
def prop(t, c):
    d, kind = gen_problem(t, t.chance(1, 25)); args = {}; desc = {}; watch = []
    eq = t.pick((3, 2, 1, 1)) # none, both, only A, only b
    if d["b"].shape[0] == 0 and eq == 1: c.label("zero-row equalities")
    names = ["c", "h", "P", "G"] + (["A", "b"] if eq == 1 else ["A"] if eq == 2 else ["b"] if eq == 3 else [])
    plain = t.chance(1, 4); shared = not plain and t.chance(1, 6); SH = share(t, d, eq) if shared else None
    for k in names if shared else (): args[k] = SH[0][k]; desc[k] = "shared " + SH[1]; watch.append((k, args[k], args[k].tobytes(), args[k].shape, args[k].strides))
    for k in () if shared else names: args[k], desc[k], w = relay(t, d[k]) if not plain else (d[k], "f8 C", d[k]); watch.append((k, w, w.tobytes(), args[k].shape, args[k].strides))
    o, lib, verbose, level = gen_opts(t); use_opts = bool(o) or t.chance(1, 2)
    c.note(lambda: "%s problem; layouts %s\n%s" % (kind, desc, show(args, o if use_opts else None))); c.label(kind)
    for k in desc: c.label(desc[k].split(" ", 1)[1]) if not plain else None
    R = reference(args, lib if use_opts else {}); c.nontrivial = R["it"] > 0; c.label("exit code %d" % R["flag"])
    pos = t.below(len(names) + 1) if eq in (0, 1) or True else 0
    if eq == 3: pos = min(pos, 4)
    a = [args[k] for k in names[:pos]]; kw = {k: args[k] for k in names[pos:]}
    if use_opts:
        if eq == 1 and pos == 6 and t.chance(1, 2): a.append(o)
        else: kw["opts"] = o
    o0 = dict(o); 
    with Stdout() as cap: r = run(*a, **kw)
    check_result(r, R, level if use_opts else None)
    if (verbose > 0 and use_opts) != (cap.text != ""): fail("verbosity", "verbosity %d, printed %r" % (verbose, cap.text[:200]))
    if verbose > 0 and use_opts and "%d" % R["it"] not in cap.text: fail("verbosity", "iteration count not printed")
    if verbose > 0 and use_opts: # the library's own report follows, with the numbers of the same clock; before it at most the settings applied
        with Stdout() as rc: R2 = reference(args, dict(lib, VERBOSE=min(verbose, 100)))
        if R["times"] is not None and R2["times"] is not None and not cap.text.endswith(rc.text): fail("verbosity", "printed %r, the C library prints %r" % (cap.text[-1500:], rc.text[-1500:]))
        for line in cap.text[:len(cap.text) - len(rc.text)].split("\n"):
            k, _, v = line.partition(":"); w = {"Maximum Iterations": R["set"][0], "ABSTOL": R["set"][1], "RELTOL": R["set"][2], "SIGMA": R["set"][3], "VERBOSE": verbose}.get(k.strip())
            if w is not None and (v.strip() != "%d" % w if k.strip() in ("Maximum Iterations", "VERBOSE") else v.strip() != "%e" % w): fail("verbosity", "settings applied show %r, in force is %r" % (line, w))
        c.label("printed")
    for k, w, b0, sh, st in watch:
        if w.tobytes() != b0 or args[k].shape != sh or args[k].strides != st: fail("input-modified", k)
    if o != o0 or list(o) != list(o0): fail("input-modified", "options")
pbt.main(prop, RULE)
