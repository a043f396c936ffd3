#!/usr/bin/env python3
"""Mechanical operator-level changes of the sources, for campaign.py.   python3 tools/automut.py SEED MAXPERFILE OUT.py [file...]"""
import sys, re, random, os
R = "/repo"
ORDER = {"qpSWIFT.c": "P07,P04,P13,P09,P10,P05,P24,P11,P01,P06,P08,P02,P03,P12", "Auxilary.c": "P14,P13,P05,P09,P24,P07,P11,P06,P15,P08,P01,P02,P03,P12", "ldl.c": "P15,P18,P13,P06,P07,P24,P02", "timer.c": "P11",
         "pyqpSWIFT.c": "P19,P20,P21", "qpSWIFT_mex.c": "P22", "qpSWIFT_sfunc.c": "P23", "qpSWIFT_sfunc_e.c": "P23", "amd": "P16,P17,P18,P06,P07"}
FILES = ["src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c", "src/timer.c", "python/pyqpSWIFT.c", "matlab/qpSWIFT_mex.c", "simulink/qpSWIFT_sfunc.c", "simulink/qpSWIFT_sfunc_e.c"] + ["src/amd_%s.c" % x for x in "order preprocess valid aat 1 2 post_tree postorder".split()]
SKIP = re.compile(r"^\s*(#|PRINT|printf|mexPrintf|ASSERT|AMD_DEBUG|extern|typedef|static char|PyErr_SetString|mexErr|\"|return NULL)|ASSERT|DEBUG|argparse_string|kwlist")
def code_lines(t):
    """line numbers with code, comments blanked"""
    b = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)
    b = re.sub(r"//[^\n]*", lambda m: " " * len(m.group(0)), b)
    out = []; nd = 0; stack = []
    for i, l in enumerate(b.split("\n")):
        s = l.strip()
        if s.startswith("#if"): stack.append(bool(re.match(r"#ifndef NDEBUG|#ifdef (DEBUG|TEST)|#if 0", s)))
        elif s.startswith("#endif") and stack: stack.pop()
        elif s.startswith("#else") and stack: stack[-1] = False
        out.append("" if any(stack) else l)
    return out
def muts(l):
    r = []
    def sub(pat, new, what):
        for m in re.finditer(pat, l): r.append((l[:m.start()] + (new(m) if callable(new) else new) + l[m.end():], what))
    sub(r"(?<![<>=!\-])<(?![<=])", "<=", "lt-le"); sub(r"<=", "<", "le-lt"); sub(r"(?<![<>=\-])>(?![>=])", ">=", "gt-ge"); sub(r">=", ">", "ge-gt"); sub(r"==", "!=", "eq-ne"); sub(r"!=", "==", "ne-eq")
    sub(r"&&", "||", "and-or"); sub(r"\|\|", "&&", "or-and"); sub(r"(?<=[\w\])]) \+ (?=[\w(])", " - ", "plus-minus"); sub(r"(?<=[\w\])]) - (?=[\w(])", " + ", "minus-plus"); sub(r"\+=", "-=", "pluseq"); sub(r"-=", "+=", "minuseq")
    sub(r"(?<=[\w\])]) \+ 1\b", "", "drop+1"); sub(r"(?<=[\w\])]) - 1\b", "", "drop-1"); sub(r"(?<![\w.])0(?![\w.])", "1", "0-1"); sub(r"(?<![\w.])1(?![\w.])", "2", "1-2"); sub(r"(?<![\w.])(\d+\.\d+)(?![\w.])", lambda m: repr(float(m.group(1)) * 1.5 + (float(m.group(1)) == 0)), "const")
    sub(r"\bMAX\b", "MIN", "max-min"); sub(r"\bMIN\b", "MAX", "min-max"); sub(r" \* (?=\w)", " + ", "mul-add")
    s = l.strip()
    if re.match(r"^[\w\->\[\]\.\(\) \*&]+(=|\+=|-=|\+\+|--)[^;=]*;$", s) and not re.match(r"^(qp_int|qp_real|Int|double|int|long|size_t|static|const|qp_timer|smat|npy|Py\w+Object|mxArray|QP|real_T|InputReal)\b", s): r.append((l.replace(s, ";"), "delete")); r.append((l.replace(s, ";"), "delete"))
    elif re.match(r"^[A-Za-z_]\w*\s*\(.*\)\s*;$", s): r.append((l.replace(s, ";"), "delcall")); r.append((l.replace(s, ";"), "delcall"))
    return r
def main():
    seed, per, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]; fs = sys.argv[4:] or FILES; rng = random.Random(seed); M = []
    for f in fs:
        t = open(os.path.join(R, f), newline="").read().replace("\r\n", "\n"); ls = code_lines(t); raw = t.split("\n"); c = []
        for i, l in enumerate(ls):
            if not l.strip() or SKIP.search(raw[i]) or "/*" in raw[i] and "*/" not in raw[i]: continue
            ms = muts(l)
            if ms:
                n, w = rng.choice(ms); c.append((i, n, w))
        rng.shuffle(c); base = os.path.basename(f); chk = ORDER.get(base) or ORDER["amd"]
        for i, n, w in c[:per]: M.append(("%s:%d:%s" % (base, i + 1, w), chk, [("@line", f, i + 1, n.rstrip())]))
    open(out, "w").write("M = [\n" + "".join("%r,\n" % (m,) for m in M) + "]\n"); print(len(M))
main()
