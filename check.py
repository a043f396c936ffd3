#!/usr/bin/env python3
"""Runs one property check.

    python3 check.py P01                 the check (tier from VERIF_TIER, seed from VERIF_SEED)
    python3 check.py P01 --replay FILE   replays a saved failing case and prints it
    python3 check.py --build-all         builds every harness (setup)

A check is a list of units (CHECKS in checks.py); each unit is a generated-input search driven by
lib/pbt.hpp (C++) or lib/pbt.py (Python).  Everything is built from /repo's current tree.
"""
import sys, os, json, time, glob, hashlib, subprocess, shutil, re, concurrent.futures as cf, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from checks import CHECKS

REPO = os.environ.get("VERIF_REPO", "/repo")
NSH = 8

def env_for(unit, extra=None):
    e = dict(os.environ)
    e["PBT_DICT"] = ",".join(map(str, build.literals(REPO)))
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:handle_abort=1:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1"
    e["PBT_CASE_CPU"] = str(unit.get("case_cpu", 20))
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = "1"; e["OPENBLAS_NUM_THREADS"] = "1"
    if unit.get("pyflavour") == "asan":
        e["LD_PRELOAD"] = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip(); e["PYTHONMALLOC"] = "malloc"
    e.update(unit.get("env", {}))
    if extra: e.update(extra)
    return e

def run_unit(pid, unit, tier, seed, work):
    cmd = build.unit_command(REPO, unit)
    n = unit["cases"][0 if tier == "quick" else 1]
    cap = unit.get("cap", (240, 1800))[0 if tier == "quick" else 1]
    env = env_for(unit)
    rule = subprocess.run(cmd + ["rule"], env=env, capture_output=True, text=True, timeout=120).stdout.strip()
    nsh = unit.get("shards", NSH)
    procs = []
    t0 = time.time()
    for s in range(nsh):
        pre = os.path.join(work, "%s.s%d" % (unit["name"], s))
        procs.append((pre, subprocess.Popen(cmd + ["run", str(seed), str(s), str(nsh), str(n), str(cap), pre], env=env, cwd=work,
                                            stdin=subprocess.DEVNULL, stdout=open(pre + ".out", "wb"), stderr=open(pre + ".log", "wb"))))
    bad = []
    for pre, p in procs:
        rc = p.wait()
        if rc != 0: bad.append((pre, rc))
    r = dict(name=unit["name"], rule=rule, requested=n, evaluations=0, sub=0, discarded=0, labels={}, max={}, samples=[], fails=[], wall=time.time() - t0, errors=[])
    hashes = set()
    for pre, rc in bad:
        r["errors"].append("shard %s ended with %d: %s" % (os.path.basename(pre), rc, open(pre + ".log", errors="replace").read()[-2000:]))
    for pre, _ in procs:
        for f in glob.glob(pre + ".part*[0-9]"):
            try: d = json.load(open(f))
            except Exception as ex: continue   # a crashed worker leaves no statistics
            r["evaluations"] += d["evaluations"]; r["sub"] += d["sub"]; r["discarded"] += d["discarded"]
            for k, v in d["labels"].items(): r["labels"][k] = r["labels"].get(k, 0) + v
            for k, v in d["max"].items(): r["max"][k] = max(r["max"].get(k, -1e300), v)
            if len(r["samples"]) < 3: r["samples"] += d["samples"][:1]
            r["fails"] += d["fails"]
        for f in glob.glob(pre + ".part*.hash"):
            b = open(f, "rb").read()
            hashes.update(b[i:i + 8] for i in range(0, len(b) // 8 * 8, 8))
        try: r["fails"] += json.load(open(pre + ".crash"))["fails"]
        except Exception as ex: r["errors"].append("no crash log for %s: %s" % (pre, ex))
    r["nontrivial"] = len(hashes)
    r["complete"] = r["evaluations"] + r["discarded"] >= n
    return r

def replay(cmd, env, tape, timeout=300):
    args = ["replay", tape] if not isinstance(tape, list) else ["series"] + tape
    q = subprocess.run(cmd + args, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)
    for line in reversed(q.stdout.strip().splitlines()):
        if line.startswith("{"):
            try: return json.loads(line)
            except Exception: pass
    return dict(kind="", msg="replay gave no answer: " + q.stderr[-500:], desc="")

def known(pid):
    """known-findings file: lines 'KNOWN-FINDING: property=<id> match=<regex> :: <what>' suppress, 'fixed:' lines do not"""
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def history(cmd, env, f, seed, nsh):
    """A failure that does not repeat alone may need the history of its process: replay it after 1, 2, 4, ... of the cases before it."""
    m = re.search(r"fail(\d+)\.tape$", f["tape"])
    if not m: return None
    end = int(m.group(1)); t0 = time.time(); k = 1
    while time.time() - t0 < 60:
        a = max(end - nsh * k, end % nsh); ser = [str(seed), str(nsh), str(a), str(end)]
        try:
            r = replay(cmd, env, ser, timeout=120)
            if r["kind"] and replay(cmd, env, ser, timeout=120)["kind"] == r["kind"]: return ser, r
        except subprocess.TimeoutExpired: return None
        if a <= end % nsh: return None
        k *= 4
    return None

def handle_failures(pid, unit, res, work, tier, seed):
    """Shrink and confirm. Returns list of (replay path, kind, msg) confirmed."""
    cmd = build.unit_command(REPO, unit); env = env_for(unit)
    fails = sorted(res["fails"], key=lambda f: (f["kind"] in ("hang",), os.path.getsize(f["tape"]) if os.path.exists(f["tape"]) else 1 << 40))
    seen, out, notrep = set(), [], 0
    t0 = time.time(); budget = 90 if tier == "quick" else 300
    for f in fails[:10]:
        if f["kind"] in seen or not os.path.exists(f["tape"]): continue
        if time.time() - t0 > budget and out: break
        ks = [replay(cmd, env, f["tape"]) for _ in range(3)]
        if unit.get("racy"): # schedules are not replayable; a failing run is still a failing run of the real code: one repetition confirms it
            for _ in range(12):
                if any(k["kind"] for k in ks): break
                ks.append(replay(cmd, env, f["tape"]))
            ks = [k for k in ks if k["kind"]][:1]
            if not ks: notrep += 1; continue
        elif any(not k["kind"] for k in ks) or len(set(k["kind"] for k in ks)) > 1:
            got = history(cmd, env, f, seed, unit.get("shards", NSH)) if time.time() - t0 < budget else None
            if got is None: notrep += 1; continue
            (ser, r) = got; seen.add(f["kind"]); os.makedirs(os.path.join(HERE, "replays", pid), exist_ok=True)
            dst = os.path.join(HERE, "replays", pid, "%s-%s.tape" % (unit["name"], "series" + ser[3]))
            with open(dst, "w") as g:
                g.write("# property %s unit %s\n# series %s\n# kind: %s\n" % (pid, unit["name"], " ".join(ser), r["kind"].replace("\n", " ")))
                for l in (r["msg"] + "\n" + r["desc"]).splitlines(): g.write("# " + l[:2000] + "\n")
            out.append((dst, r["kind"], r["msg"] + " (after %d earlier cases in the same process)" % ((int(ser[3]) - int(ser[2])) // int(ser[1])))); continue
        small = f["tape"] + ".min"
        subprocess.run(cmd + ["shrink", f["tape"], small, str(30 if tier == "quick" else 90)], env=env, capture_output=True, timeout=900)
        use, r = f["tape"], ks[0]
        if os.path.exists(small) and not unit.get("racy"):
            ms = [replay(cmd, env, small) for _ in range(3)]
            if all(k["kind"] == r["kind"] for k in ms): use, r = small, ms[0]
        seen.add(f["kind"])
        os.makedirs(os.path.join(HERE, "replays", pid), exist_ok=True)
        h = hashlib.sha256(open(use, "rb").read()).hexdigest()[:10]
        dst = os.path.join(HERE, "replays", pid, "%s-%s.tape" % (unit["name"], h))
        with open(dst, "w") as g:
            g.write("# property %s unit %s\n# kind: %s\n" % (pid, unit["name"], r["kind"].replace("\n", " ")))
            for l in (r["msg"] + "\n" + r["desc"]).splitlines(): g.write("# " + l[:2000] + "\n")
            g.write(open(use).read())
        out.append((dst, r["kind"], r["msg"]))
    return out, notrep

def main():
    pid = sys.argv[1]
    if pid == "--build-all":
        build.build_all(REPO, [u for c in CHECKS.values() for u in c["units"]]); return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    chk = CHECKS[pid]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        txt = open(sys.argv[3]).read(); m = re.search(r"unit (\S+)", txt)
        unit = next(u for u in chk["units"] if u["name"] == m.group(1))
        ms = re.search(r"^# series (.*)$", txt, re.M)
        r = replay(build.unit_command(REPO, unit), env_for(unit), ms.group(1).split() if ms else sys.argv[3])
        print("kind:", r["kind"] or "(property held)"); print(r["msg"]); print(r["desc"]); return 1 if r["kind"] else 0
    t0 = time.time()
    work = build.scratch("run_%s" % pid)
    shutil.rmtree(os.path.join(HERE, "replays", pid), ignore_errors=True)
    build.build_all(REPO, chk["units"])
    tb = time.time() - t0
    results, viol, errors, knowns = [], [], [], []
    kf = known(pid)
    try:
        for unit in chk["units"]:
            if tier == "quick" and unit.get("thorough_only"): continue
            if os.environ.get("VERIF_ONLY", unit["name"]) != unit["name"]: continue # development only
            r = run_unit(pid, unit, tier, seed, work); results.append(r); errors += r["errors"]
            if r["fails"]:
                conf, notrep = handle_failures(pid, unit, r, work, tier, seed)
                for path, kind, msg in conf:
                    k = next((w for rx, w in kf if rx.search(kind + ": " + msg)), None)
                    if k: knowns.append(k)
                    else: viol.append((path, kind, msg))
                r["unreproducible"] = notrep
                if viol: break
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            executions_of_the_code_under_test=sum(r["evaluations"] + r["sub"] for r in results),
            distinct_nontrivial=sum(r["nontrivial"] for r in results),
            rule=" || ".join("[%s] %s" % (r["name"], r["rule"]) for r in results),
            samples=[s for r in results for s in r["samples"][:2]],
            units=[dict(name=r["name"], requested=r["requested"], evaluations=r["evaluations"], inner_executions=r["sub"], distinct_nontrivial=r["nontrivial"], discarded=r["discarded"],
                        labels=r["labels"], margins=r["max"], wall_s=round(r["wall"], 2), unreproducible_failures=r.get("unreproducible", 0), complete=r["complete"]) for r in results],
            build_s=round(tb, 2)),
        assumptions=chk.get("assumptions", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for r in results:
        print("%s/%s: %d cases (%d distinct non-trivial, %d discarded, %d inner executions) in %.1f s%s" % (pid, r["name"], r["evaluations"], r["nontrivial"], r["discarded"], r["sub"], r["wall"], "" if r["complete"] else " [stopped before the requested %d]" % r["requested"]))
        if r.get("unreproducible"): print("  %d failures did not reproduce and were not counted" % r["unreproducible"])
    for k in sorted(set(knowns)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if viol:
        for path, kind, msg in viol:
            print("  %s: %s" % (kind, msg[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors: print("ERROR", e)
        return 2
    if any(r["evaluations"] == 0 for r in results):
        print("ERROR a unit evaluated nothing"); return 2
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except build.BuildError as e:
        print("BUILD ERROR", e); sys.exit(3)
