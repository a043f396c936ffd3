#!/usr/bin/env python3
"""Mutation campaign: applies each change of a list to a scratch copy of the repository, makes sure that the 65 tests still pass,
and runs checks against it.   python3 tools/campaign.py LIST.py [-k substring] [-j jobs] [-o out.json] [--checks P01,P02 | own | all] [--notest]

LIST.py defines M = [(name, property, [(file, old, new[, nth])...]), ...]; `old` is matched with any white space between its tokens.
Scratch copies live under /tmp/w/camp and are removed.  Each job copies /verif (without build output) so that runs do not disturb each other.
"""
import sys, os, re, json, subprocess, shutil, argparse, importlib.util, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = re.compile(r"[A-Za-z_0-9.]+|\s+|.")

def rx(old): return re.compile(r"\s*".join(re.escape(t) for t in TOK.findall(old) if not t.isspace()))

def apply(root, edits):
    for e in edits:
        if e[0] == "@line":
            p = os.path.join(root, e[1]); ls = open(p, newline="").read().split("\n"); cr = "\r" if ls[e[2] - 1].endswith("\r") else ""; ls[e[2] - 1] = e[3] + cr; open(p, "w", newline="").write("\n".join(ls)); continue
        f, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
        p = os.path.join(root, f); s = open(p, newline="").read(); crlf = "\r\n" in s; s = s.replace("\r\n", "\n")
        ms = list(rx(old).finditer(s))
        if not ms: raise Exception("no match in %s: %s" % (f, old))
        if nth is None and len(ms) != 1: raise Exception("%d matches in %s: %s" % (len(ms), f, old))
        sel = ms if nth == "all" else [ms[nth or 0]]
        for m in reversed(sel): s = s[:m.start()] + new + s[m.end():]
        if crlf: s = s.replace("\n", "\r\n")
        open(p, "w", newline="").write(s)

def tests(root):
    w = os.path.dirname(root)
    vp = os.path.join(w, "vp"); shutil.rmtree(vp, ignore_errors=True); shutil.copytree("/opt/vp", vp)
    for f in os.listdir(vp):
        p = os.path.join(vp, f)
        if f.endswith((".sh", ".py")):
            s = open(p).read().replace("/repo", root).replace("/opt/vp", vp); open(p, "w").write(s)
    shutil.rmtree(os.path.join(root, "_build"), ignore_errors=True)
    out = os.path.join(w, "t.json")
    q = subprocess.run(["bash", vp + "/test.sh", out], capture_output=True, text=True, timeout=600)
    try: d = json.load(open(out))
    except Exception: return False, "no result " + q.stderr[-300:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    bl = base["stable"]
    miss = [t for t in bl if t not in d["passed"]]
    return not miss, ",".join(miss[:3])

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("list"); ap.add_argument("-k", default=""); ap.add_argument("-o", default=""); ap.add_argument("--checks", default="own"); ap.add_argument("--notest", action="store_true"); ap.add_argument("-w", default="/tmp/w/camp"); ap.add_argument("--first", action="store_true", help="stop at the first check that reports")
    a = ap.parse_args()
    sp = importlib.util.spec_from_file_location("ml", a.list); ml = importlib.util.module_from_spec(sp); sp.loader.exec_module(ml)
    shutil.rmtree(a.w, ignore_errors=True); os.makedirs(a.w)
    vf = os.path.join(a.w, "verif"); subprocess.run(["cp", "-a", HERE, vf], check=True)
    subprocess.run(["rm", "-rf", vf + "/.git", vf + "/seeded"])
    base = os.path.join(a.w, "base"); subprocess.run(["git", "clone", "-q", "/repo", base], check=True)
    root = os.path.join(a.w, "repo"); res = []
    ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
    for name, prop, edits in ml.M:
        if a.k and not re.search(a.k, name): continue
        shutil.rmtree(root, ignore_errors=True); subprocess.run(["cp", "-a", base, root], check=True)
        r = dict(name=name, prop=prop); res.append(r)
        try: apply(root, edits)
        except Exception as ex: r["state"] = "NOAPPLY"; print(name, "NOAPPLY", ex, flush=True); continue
        if not a.notest:
            try: ok, why = tests(root)
            except subprocess.TimeoutExpired: ok, why = False, "time-out"
            if not ok: r["state"] = "TESTFAIL"; print(name, prop, "TESTFAIL", why, flush=True); continue
        r["checks"] = {}
        sel = prop.split(",") if "," in prop else [prop] if a.checks == "own" else ([prop] + [i for i in ids if i != prop] if a.checks == "all" else a.checks.split(","))
        for c in sel:
            t0 = time.time()
            try: q = subprocess.run([sys.executable, vf + "/check.py", c], env=dict(os.environ, VERIF_REPO=root, VERIF_TIER="quick"), cwd=vf, capture_output=True, text=True, errors="replace", timeout=1500)
            except subprocess.TimeoutExpired: r["checks"][c] = "TIMEOUT"; print(name, c, "TIMEOUT", flush=True); continue
            v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION property=" + c)]
            st = "CAUGHT" if q.returncode == 1 and v else ("quiet" if q.returncode == 0 else "RC%d" % q.returncode)
            why = ""
            if st == "CAUGHT":
                ls = q.stdout.splitlines(); i = ls.index(v[0]); why = ls[i - 1].strip()[:220]
            elif st != "quiet": why = (q.stdout + q.stderr)[-400:]
            r["checks"][c] = st; print("%-28s %s %s %s %.0fs %s" % (name, prop, c, "MISSED" if st == "quiet" and (c == prop) else st, time.time() - t0, why.replace("\n", " ")), flush=True)
            if a.first and st == "CAUGHT": break
        r["state"] = "CAUGHT" if r["checks"].get(prop) == "CAUGHT" or ("," in prop and "CAUGHT" in r["checks"].values()) else "MISSED"
        if "," in prop and r["state"] == "MISSED": print("SURVIVED", name, str(edits[0][-1]).strip()[:80], flush=True)
        if a.o: json.dump(res, open(a.o, "w"), indent=1)
    shutil.rmtree(a.w, ignore_errors=True)
    print("own-check: caught %d of %d" % (sum(r["state"] == "CAUGHT" for r in res), sum(r["state"] in ("CAUGHT", "MISSED") for r in res)))
if __name__ == "__main__": main()
