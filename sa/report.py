"""Obligations, their collection over parallel jobs, and the verdict of a check."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from . import nfeval
from .dom import *
from .ops import leaves
from .front import AnalysisError, Program, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# Weights of the inputs under a shift of the time origin.
WEIGHTS = {k: 1.0 for k in ("t", "t_pred", "t2", "t1", "s1", "s2", "t_z", "a", "b")}


class Rec:
    """Recorder of the obligations of one job."""

    def __init__(self):
        self.obs = []  # (key, status, message)
        self.visited = {}
        self.unsup = {}
        self.calls = 0
        self.anchors = {}

    def add(self, key, status, msg=""):
        self.obs.append((key, status, " ".join(str(msg).split())))

    def ok(self, key, msg=""):
        self.add(key, "ok", msg)

    def open(self, key, msg=""):
        self.add(key, "open", msg)

    def bad(self, key, msg):
        self.add(key, "bad", msg)

    def check(self, key, cond, msg, okmsg=""):
        """`cond`: True, False or None."""
        self.add(key, "open" if cond is None else "ok" if cond else "bad", msg if not cond else okmsg)

    def anchor(self, name, n=1):
        self.anchors[name] = self.anchors.get(name, 0) + n

    def absorb(self, I):
        for k, v in I.visited.items():
            self.visited[k] = self.visited.get(k, 0) + v
        for k, v in I.unsupported.items():
            self.unsup[k] = self.unsup.get(k, 0) + v
        self.calls += I.calls

    # -- judgements about abstract values
    def unit(self, key, v, base, want, where):
        if v is None or v.u is None:
            return self.open(key, f"unit of {where} is not known")
        if v.u == ANY:
            return self.ok(key)
        e = dict(v.u).get(base, 0)
        if isinstance(e, Bad):
            return self.bad(key, f"{where}: {e.msg}")
        self.check(key, e == want, f"{where} has unit [{ustr(v.u)}], but the exponent of {base} should be {want}", f"{base}^{want}")

    def offset(self, key, v, base, want, where):
        """The shift of the value under a rescaling of a base unit: coefficient of its logarithm."""
        if v is None or v.lo is None:
            return self.open(key, f"dependence of {where} on the logarithm of {base} is not known")
        if isinstance(v.lo, Bad):
            return self.bad(key, f"{where}: {v.lo.msg}")
        x = dict(v.lo).get(base, N.NF())
        if x == want:
            return self.ok(key, f"log {base} * ({str(want)[:60]})")
        s = nfeval.same(x, want)
        self.check(key, s, f"{where} changes by ({str(x)[:120]}) log c instead of ({str(want)[:80]}) log c if {base} is multiplied by c")

    def shape(self, key, v, want, where):
        if v is None or v.sh is None:
            return self.open(key, f"shape of {where} is not known")
        if isinstance(v.sh, Bad):
            return self.bad(key, f"{where}: {v.sh.msg}")
        if len(v.sh) != len(want):
            return self.bad(key, f"{where} has shape {shape_str(v.sh)} instead of {shape_str(want)}")
        r = True
        for a, b in zip(v.sh, want):
            if b is None:
                continue
            e = dims_eq(a, b)
            if e is False:
                return self.bad(key, f"{where} has shape {shape_str(v.sh)} instead of {shape_str(want)}")
            if e is None:
                r = None
        self.check(key, r, f"shape of {where} is {shape_str(v.sh)}", shape_str(want))

    def shift(self, key, v, want, where):
        """Derivative with respect to a shift of the time origin."""
        if v is None:
            return self.open(key, f"dependence of {where} on the time origin is not known")
        parts = leaves(v) if v.nf is None else [v]
        want = N.const(want) if want else N.NF()
        if len(parts) > 1 or parts[0] is not v:
            # Made of parts, each of which must not depend on the time origin.
            rs = [nfeval.invariant(x.nf, WEIGHTS, float(want.const() or 0)) if x.nf is not None else None for x in parts]
            if False in rs:
                return self.bad(key, f"{where} changes under a shift of the time origin")
        if v.w is None and v.nf is not None:
            return self.check(key, nfeval.invariant(v.nf, WEIGHTS, float(want.const() or 0)), f"{where} changes under a shift of the time origin")
        if v.w is None:
            return self.open(key, f"dependence of {where} on the time origin is not known")
        if v.w == want:
            return self.ok(key)
        if v.nf is not None:
            s = nfeval.invariant(v.nf, WEIGHTS, float(want.const() or 0))
        elif any("dgate" in repr(a) for a in v.w.atoms()):
            s = None
        else:
            s = nfeval.same(v.w, want)
        self.check(key, s, f"{where} changes at rate {str(v.w)[:200]} instead of {want} under a shift of the time origin")

    def same(self, key, a, b, msg, **kw):
        if a is None or b is None:
            return self.open(key, "no normal form: " + msg)
        self.check(key, nfeval.same(a, b, **kw), msg)


def where_of(prog, cls, name):
    c = [m.classes[cls] for m in prog.modules.values() if cls in m.classes]
    ms = prog.methods(c[0], name) if c else None
    return ms[0].where if ms else f"{cls}.{name}"


class OutOfTime(BaseException):
    pass


def _alarm(*_):
    raise OutOfTime()


DEADLINE = 660  # Seconds for all jobs of a check, which has 900.
JOB_TIME = 240


def _run(job):
    mod, fname, args, tier, start = job
    job = job[:4]
    R = Rec()
    t0 = time.time()
    left = int(min(JOB_TIME, start + DEADLINE - t0))
    if left <= 0:
        R.open(f"analysis of {job[:3]}", "not done: out of time")
        return job, R.obs, R.visited, R.unsup, R.calls, R.anchors, None, 0
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(left)
        import importlib
        m = importlib.import_module("sa." + mod)
        getattr(m, fname)(R, *args)
        err = None
    except OutOfTime:
        R.open(f"analysis of {job[:3]}", f"not finished after {left} seconds")
        err = None
    except AnalysisError as e:
        err = ("analysis", str(e))
    except RecursionError as e:
        err = ("crash", "recursion limit")
    except Exception:
        err = ("crash", traceback.format_exc(limit=-3))
    finally:
        signal.alarm(0)
    return job, R.obs, R.visited, R.unsup, R.calls, R.anchors, err, time.time() - t0


def findings(pid):
    """Known findings of a property: (key, text)."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=" + pid + " "):
                k, _, txt = l.split(" ", 2)[2].partition(" | ")
                out.append((k.strip(), txt.strip()))
    return out


def run(spec, pid, tier, procs=8):
    """Run a check. Returns the exit code."""
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = [(m, f, a, tier, t0) for m, f, a in spec["jobs"](tier)]
    sys.setrecursionlimit(20000)
    if len(jobs) > 1 and procs > 1:
        with mp.get_context("fork").Pool(min(procs, len(jobs)), maxtasksperchild=None) as pool:
            res = list(pool.imap_unordered(_run, jobs, 1))
        order = {repr(j[:4]): i for i, j in enumerate(jobs)}
        res.sort(key=lambda r: order[repr(r[0])])
    else:
        res = [_run(j) for j in jobs]
    obs, visited, unsup, calls, errs, anchors = {}, {}, {}, 0, [], {}
    rank = {"ok": 0, "open": 1, "bad": 2}
    for job, o, v, u, c, an, err, dt in res:
        for key, status, msg in o:
            if key not in obs or rank[status] > rank[obs[key][0]]:
                obs[key] = (status, msg)
        for k, x in v.items():
            visited[k] = visited.get(k, 0) + x
        for k, x in u.items():
            unsup[k] = unsup.get(k, 0) + x
        for k, x in an.items():
            anchors[k] = anchors.get(k, 0) + x
        calls += c
        if err:
            errs.append((job[:3], err))
    broken = [f"{j}: {e[1]}" for j, e in errs if e[0] == "analysis"]
    for j, e in errs:
        if e[0] == "crash":
            obs["analysis of " + repr(j)] = ("open", e[1])
    n_ok = sum(s == "ok" for s, _ in obs.values())
    bad = {k: m for k, (s, m) in obs.items() if s == "bad"}
    opn = {k: m for k, (s, m) in obs.items() if s == "open"}
    for k, lo in spec.get("anchors", {}).items():
        if anchors.get(k, 0) < lo:
            broken.append(f"expected at least {lo} instances of {k}, found {anchors.get(k, 0)}")
    if not bad and n_ok < spec.get("min_ok", 1):
        broken.append(f"only {n_ok} obligations could be discharged, at least {spec.get('min_ok', 1)} are expected")
    known = findings(pid)
    kn, new = [], {}
    for k, m in bad.items():
        hit = [t for kk, t in known if kk == k]
        if hit:
            kn.append((k, hit[0]))
        else:
            new[k] = m
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": spec["level"],
        "coverage": {
            "explanation": spec["explanation"],
            "obligations": len(obs),
            "discharged": n_ok,
            "undischarged": len(opn),
            "violated": len(bad),
            "jobs": len(jobs),
            "functions_analysed": len(visited),
            "function_instances": sum(visited.values()),
            "call_sites_interpreted": calls,
            "functions": sorted(visited)[:400],
            "anchors": anchors,
            "unmodelled_constructs": unsup,
            "samples": [f"{k}: {m}" if m else k for k, (s, m) in list(obs.items())[:: max(1, len(obs) // 25)] if s == "ok"][:30],
            "undischarged_list": [f"{k}: {m}"[:300] for k, m in list(opn.items())[:60]],
            "known_findings": [f"{k}: {t}" for k, t in kn],
            "rule": spec["explanation"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    evd = os.environ.get("GPCM_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    path = os.path.join(evd, pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(obs)} obligations, {n_ok} discharged, {len(opn)} undischarged, {len(bad)} violated; {len(visited)} functions, {len(jobs)} jobs, {ev['wall_s']} s")
    for k, t in kn:
        print(f"KNOWN-FINDING: property={pid} {t} [{k}]")
    if new:
        for k, m in list(new.items())[:12]:
            print(f"  violated: {k}: {m[:600]}")
        rp = os.path.join(evd, pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if broken:
        for b in broken:
            print("analysis broken: " + b[:500])
        return 2
    return 0
