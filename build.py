"""Builds the code under test and the harnesses from the current tree, with a content-hash cache
in /verif/build (ignored by git)."""
import os, glob, hashlib, subprocess, shutil, re, threading, concurrent.futures as cf, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "build")
class BuildError(Exception): pass

FLAVOURS = {
    "plain": dict(cc="gcc", cxx="g++", flags=["-O2", "-g1"]),
    "asan": dict(cc="gcc", cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "tsan": dict(cc="gcc", cxx="g++", flags=["-O1", "-g1", "-fsanitize=thread"]),
    "msan": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins=1"], linkstatic=True),
    "fuzz": dict(cc="clang", cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all"]),
}
COMMON = ["-U_FORTIFY_SOURCE", "-fno-builtin-printf", "-fno-builtin-malloc", "-fPIC", "-w"]
HOOKS = ["malloc", "calloc", "realloc", "free", "clock_gettime"]

def sh(cmd, **k):
    q = subprocess.run(cmd, capture_output=True, text=True, errors="replace", **k)
    if q.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), (q.stdout + q.stderr)[-4000:]))
    return q.stdout

def digest(files, *extra):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    for e in extra: h.update(repr(e).encode())
    return h.hexdigest()[:16]

def repo_sources(repo): return sorted(glob.glob(repo + "/src/**/*.c", recursive=True))
def repo_headers(repo): return sorted(glob.glob(repo + "/include/**/*.h", recursive=True) + glob.glob(repo + "/src/**/*.h", recursive=True))

def literals(repo):
    """integer literals of the sources: only a bias for generated dimensions and sizes"""
    out = set()
    for f in repo_sources(repo) + repo_headers(repo) + glob.glob(repo + "/python/*.c"):
        t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", open(f, errors="replace").read(), flags=re.S)
        for m in re.finditer(r"(?<![\w.])(\d{1,6})(?![\w.])", t):
            v = int(m.group(1))
            if 2 < v <= 100000: out.add(v)
    return sorted(out)[:400]

def scratch(name):
    d = os.path.join(ROOT, name); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); return d

class Lock:
    def __init__(self, name): os.makedirs(ROOT, exist_ok=True); self.f = open(os.path.join(ROOT, name + ".lock"), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def build_lib(repo, flavour, extra_src=(), extra_inc=(), tag="lib", defs=()):
    """object archive of the library, its allocator and clock calls redirected to v_* stand-ins"""
    fl = FLAVOURS[flavour]; srcs = repo_sources(repo) + list(extra_src)
    key = digest(srcs + repo_headers(repo), fl, COMMON, HOOKS, defs, list(extra_inc), [os.path.relpath(s, repo) for s in srcs])
    d = os.path.join(ROOT, "%s-%s-%s" % (tag, flavour, key)); lib = os.path.join(d, "lib.a")
    with Lock("%s-%s" % (tag, flavour)):
        if os.path.exists(lib): return lib
        for old in glob.glob(os.path.join(ROOT, "%s-%s-*" % (tag, flavour))): 
            if os.path.isdir(old): shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        def one(i_s):
            i, s = i_s; o = os.path.join(d, "%02d_%s.o" % (i, os.path.basename(s)))
            sh([fl["cc"]] + fl["flags"] + COMMON + ["-I" + repo + "/include", "-I" + repo + "/src"] + ["-I" + x for x in extra_inc] + list(defs) + ["-c", s, "-o", o])
            sh(["objcopy"] + [a for h in HOOKS for a in ("--redefine-sym", "%s=v_%s" % (h, h))] + [o]); return o
        with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, enumerate(srcs)))
        sh(["ar", "rcs", lib + ".tmp"] + objs); os.rename(lib + ".tmp", lib)
        for o in objs: os.unlink(o)
    return lib

def unit_lib(repo, unit):
    """the library as the unit needs it: some units compile it the way MATLAB would"""
    v = unit.get("lib", {})
    return build_lib(repo, unit.get("flavour", "asan"), extra_inc=[os.path.join(HERE, x) for x in v.get("inc", [])], tag=v.get("tag", "lib"), defs=v.get("defs", []))

def build_unit(repo, unit):
    """compile and link one C++ harness; returns the executable"""
    if unit.get("lang", "c++") == "python": return build_python(repo, unit)
    flavour = unit.get("flavour", "asan"); fl = FLAVOURS[flavour]
    src = os.path.join(HERE, "props", unit["src"]); helpers = glob.glob(HERE + "/lib/*.hpp") + glob.glob(HERE + "/lib/*.h")
    esrc = [os.path.join(repo, s) if not s.startswith("/") else s for s in unit.get("repo_src", [])]
    lib = unit_lib(repo, unit); uinc = ["-I" + os.path.join(HERE, x) for x in unit.get("inc", [])]
    mocks = [x for d in unit.get("inc", []) for x in glob.glob(os.path.join(HERE, d, "*"))]
    key = digest([src, lib, HERE + "/lib/hooks.c"] + helpers + mocks + repo_headers(repo) + esrc, fl, unit.get("defs", []), unit.get("ldflags", []), unit.get("keep", {}))
    name = unit["name"] + "-" + flavour; d = os.path.join(ROOT, "bin"); exe = os.path.join(d, "%s-%s" % (name, key))
    with Lock("unit-" + name):
        if os.path.exists(exe): return exe
        os.makedirs(d, exist_ok=True)
        for old in glob.glob(os.path.join(d, name + "-*")):
            shutil.rmtree(old, ignore_errors=True) if os.path.isdir(old) else os.unlink(old)
        tmp = exe + ".d"; os.makedirs(tmp, exist_ok=True); o = os.path.join(tmp, "h.o")
        objs = []
        inc = ["-I" + HERE + "/lib", "-I" + repo + "/include"] + uinc
        for i, s in enumerate(esrc):
            oo = os.path.join(tmp, "e%d.o" % i)
            sh([fl["cc"]] + fl["flags"] + COMMON + unit.get("defs", []) + inc + ["-c", s, "-o", oo])
            keep = unit.get("keep", {}).get(os.path.basename(s), [])
            args = [a for h in HOOKS for a in ("--redefine-sym", "%s=v_%s" % (h, h))]
            for k in keep: args += ["--keep-global-symbol", k]
            sh(["objcopy"] + args + [oo]); objs.append(oo)
        oo = os.path.join(tmp, "hooks.o"); sh([fl["cc"]] + fl["flags"] + COMMON + inc + ["-c", HERE + "/lib/hooks.c", "-o", oo]); objs.append(oo)
        hfl = [f for f in fl["flags"] if not f.startswith("-O")] + ["-O1"] if flavour != "plain" else fl["flags"]
        sh([fl["cxx"], "-std=c++17"] + hfl + ["-w"] + inc + unit.get("defs", []) + ["-c", src, "-o", o])
        sh([fl["cxx"]] + fl["flags"] + [o] + objs + [lib, "-o", exe + ".tmp"] + unit.get("ldflags", []) + ["-lm", "-lpthread"])
        shutil.rmtree(tmp); os.rename(exe + ".tmp", exe)
    return exe

def build_python(repo, unit):
    """the extension module compiled from the tree; returns the directory holding it"""
    fl = unit.get("pyflavour", "plain")
    srcs = repo_sources(repo) + [repo + "/python/pyqpSWIFT.c"]
    import sysconfig
    q = subprocess.run(["/usr/bin/python3", "-c", "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True)
    npi, pyi, suf = q.stdout.split()
    flags = dict(plain=["-O2", "-g1"], asan=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"])[fl]
    key = digest(srcs + repo_headers(repo) + [HERE + "/lib/refshim.c", HERE + "/lib/fakeclock.c"], flags, npi)
    d = os.path.join(ROOT, "pyext-%s-%s" % (fl, key)); so = os.path.join(d, "qpSWIFT" + suf)
    with Lock("pyext-" + fl):
        if not os.path.exists(so):
            for old in glob.glob(os.path.join(ROOT, "pyext-%s-*" % fl)):
                if os.path.isdir(old): shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            def one(i_s):
                i, s = i_s; o = os.path.join(d, "%02d.o" % i)
                sh(["gcc"] + flags + ["-fPIC", "-w", "-fno-strict-aliasing", "-I" + npi, "-I" + pyi, "-I" + repo + "/include", "-c", s, "-o", o]); sh(["objcopy", "--redefine-sym", "clock_gettime=vf_clock_gettime", o]); return o
            with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, enumerate(srcs)))
            clock = os.path.join(d, "clock.o"); sh(["gcc", "-O1", "-fPIC", "-c", HERE + "/lib/fakeclock.c", "-o", clock])
            sh(["gcc", "-shared", "-Wl,-Bsymbolic"] + flags + objs + [clock] + ["-o", so + ".tmp", "-lm"])
            # the same library as a plain shared object, for the reference side
            sh(["gcc", "-shared", "-Wl,-Bsymbolic", "-I" + repo + "/include", "-fPIC", "-w"] + flags + objs[:-1] + [clock, HERE + "/lib/refshim.c", "-o", os.path.join(d, "libref.so"), "-lm"])
            os.rename(so + ".tmp", so)
            for o in objs + [clock]: os.unlink(o)
    return d

def unit_command(repo, unit):
    if unit.get("lang") == "python":
        return ["/usr/bin/python3", os.path.join(HERE, "pyprops", unit["src"])] + [build_python(repo, unit)]
    return [build_unit(repo, unit)]

def build_all(repo, units):
    for u in units:
        if u.get("lang", "c++") != "python": unit_lib(repo, u)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(lambda u: build_unit(repo, u), units))
