#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds*.py and confirms every planted bug in a scratch copy of /repo: the patch applies, the tests
still pass, the demonstration passes without it and fails with it; then runs checks against it.
  python3 tools/mkseeds.py [-k regex] [--nocheck] [--checks own|all|P01,P02] [-w workdir]"""
import sys, os, re, json, subprocess, shutil, argparse, glob, importlib.util, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
import campaign
TPL = {"c": """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 99; trap 'rm -rf "$d"' EXIT
gcc -O1 -w %(cflags)s -I"$PWD/include" -I"$here" "$here/demo.c" "$PWD"/src/*.c %(ldflags)s -lm -o "$d/demo" || exit 98
timeout 120 "$d/demo"
""", "py": """#!/bin/bash
# run with cwd = the repository after the build; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/_build/python/lib" timeout 200 /usr/bin/python3 "$here/demo.py"
""", "mex": """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 99; trap 'rm -rf "$d"' EXIT
gcc -O1 -w -DMATLAB_MEX_FILE -I"$PWD/include" -I"$here" "$here/demo.c" "$PWD"/src/*.c "$PWD/matlab/qpSWIFT_mex.c" -lm -o "$d/demo" || exit 98
timeout 120 "$d/demo"
""", "sim": """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 99; trap 'rm -rf "$d"' EXIT
gcc -O1 -w -I"$PWD/include" -I"$here" -I"$PWD/simulink" "$here/demo.c" "$PWD"/src/*.c -lm -o "$d/demo" || exit 98
timeout 120 "$d/demo"
"""}
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("-k", default=""); ap.add_argument("--nocheck", action="store_true"); ap.add_argument("--notest", action="store_true"); ap.add_argument("--checks", default="own"); ap.add_argument("-w", default="/tmp/w/seedw"); ap.add_argument("-o", default="")
    a = ap.parse_args(); W = a.w; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    base = W + "/base"; subprocess.run(["git", "clone", "-q", "/repo", base], check=True); root = W + "/repo"
    subprocess.run(["cp", "-a", "/repo/_build", base + "/_build"])
    vf = W + "/verif"; subprocess.run(["cp", "-a", HERE, vf], check=True); subprocess.run(["rm", "-rf", vf + "/.git", vf + "/seeded"])
    S = []
    for f in sorted(glob.glob(HERE + "/tools/seeds*.py")):
        sp = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); S += m.SEEDS
    ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]; out = []
    for s in S:
        if a.k and not re.search(a.k, s["id"]): continue
        kind = s.get("kind", "c"); d = os.path.join(HERE, "seeded", s["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.rmtree(root, ignore_errors=True); subprocess.run(["cp", "-a", base, root], check=True)
        try: campaign.apply(root, s["edits"])
        except Exception as ex: print(s["id"], "NOAPPLY", ex, flush=True); shutil.rmtree(d); continue
        patch = subprocess.run(["git", "-C", root, "diff", "--", "src", "include", "python", "matlab", "simulink"], capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(patch)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.sh", "w").write(TPL[kind] % dict(cflags=s.get("cflags", ""), ldflags=s.get("ldflags", "")) if kind == "c" else TPL[kind]); os.chmod(d + "/demo.sh", 0o755)
        open(d + ("/demo.py" if kind == "py" else "/demo.c"), "w").write(s["demo"].strip("\n") + "\n")
        if kind == "c": shutil.copy(HERE + "/tools/seedlib/u.h", d)
        if kind in ("mex", "sim"):
            for f in os.listdir(HERE + "/tools/seedlib"):
                if f.startswith(kind + "_"): shutil.copy(HERE + "/tools/seedlib/" + f, d + "/" + f[len(kind) + 1:])
        q = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
        if q.returncode: print(s["id"], "PATCH does not apply:", q.stderr[:200], flush=True); continue
        b0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True, errors="replace")
        ok = True
        if not a.notest:
            try: ok, why = campaign.tests(root)
            except subprocess.TimeoutExpired: ok, why = False, "time-out"
            if not ok: print(s["id"], "TESTFAIL", why, flush=True)
        b1 = subprocess.run(["bash", d + "/demo.sh"], cwd=root, capture_output=True, text=True, errors="replace")
        good = ok and b0.returncode == 0 and b1.returncode not in (0, 98, 99)
        print("%-24s %s demo %d/%d %s | %s" % (s["id"], s["prop"], b0.returncode, b1.returncode, "VALID" if good else "INVALID", (b1.stdout + b1.stderr if good else b0.stdout + b0.stderr + " /// " + b1.stdout + b1.stderr)[:200].replace("\n", " ")), flush=True)
        r = dict(id=s["id"], prop=s["prop"], valid=good, checks={}); out.append(r)
        if not good or a.nocheck: continue
        sel = [s["prop"]] if a.checks == "own" else ([s["prop"]] + [i for i in ids if i != s["prop"]] if a.checks == "all" else a.checks.split(","))
        for c in sel:
            t0 = time.time(); q = subprocess.run([sys.executable, vf + "/check.py", c], env=dict(os.environ, VERIF_REPO=root, VERIF_TIER="quick", VERIF_SEED="1"), cwd=vf, capture_output=True, text=True, errors="replace", timeout=1500)
            v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION property=" + c)]
            st = "CAUGHT" if q.returncode == 1 and v else ("quiet" if q.returncode == 0 else "RC%d" % q.returncode); why = ""
            if v: ls = q.stdout.splitlines(); why = ls[ls.index(v[0]) - 1].strip()[:200]
            r["checks"][c] = st; print("   %-24s %s %s %.0fs %s" % (s["id"], c, "MISSED" if st == "quiet" and c == s["prop"] else st, time.time() - t0, why), flush=True)
        if a.o: json.dump(out, open(a.o, "w"), indent=1)
    shutil.rmtree(W, ignore_errors=True)
main()
