#!/usr/bin/env python3
"""Self-test during development: applies small textual changes to a copy of the sources and
reports which checks notice. Usage: mutants.py [property ...]   (or -k id)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = json.load(open(os.path.join(HERE, "tools", "mutants.json")))


def run(m, props=None):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        for s in ("gpcm", "experiments"):
            shutil.copytree("/repo/" + s, os.path.join(d, s), ignore=shutil.ignore_patterns("__pycache__", "_experiments"))
        for f, a, b in m["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) < 1:
                return m, "stale", ""
            open(p, "w").write(s.replace(a, b, 1))
        out = {}
        for c in props or m["props"]:
            r = subprocess.run(["python3-vt", "check.py", c], cwd=HERE, env=dict(os.environ, GPCM_REPO=d, GPCM_EVIDENCE=d), capture_output=True, text=True)
            out[c] = (r.returncode, [l for l in r.stdout.splitlines() if "violated:" in l or "broken" in l][:3], r.stderr[-300:])
        return m, out, ""
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "-k":
        ms = [m for m in MUT if m["id"] in a[1:]]
    else:
        ms = [m for m in MUT if not a or set(a) & set(m["props"])]
    n = ok = 0
    with ThreadPoolExecutor(2) as ex:
        for m, o, _ in ex.map(lambda m: run(m, None if not a or a[0] == "-k" else [c for c in m["props"] if c in a]), ms):
            if o == "stale":
                print("STALE", m["id"])
                continue
            want = 0 if m.get("benign") else 1
            for c, (rc, ls, err) in o.items():
                n += 1
                good = rc == want
                ok += good
                print(("" if good else "MISS " if want else "ALARM ") + f"{m['id']} {c} exit {rc}" + ("" if good and not "-v" in a else " ".join(x[:200] for x in ls) + err))
    print(ok, "of", n)
