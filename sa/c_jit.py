"""Purity of functions that are compiled or traced by an optimiser (C22)."""
from .pipe import *
from .c_pipe import run_pipe
from .c_use import UTILS, run_util

HISTORIES = {
    "fit first": None,
    "condition first": ("condition", "elbo again", "fit again", "condition again", "predict again"),
    "elbo first": ("elbo", "fit", "elbo again", "condition", "predict_kernel", "predict_filter", "predict", "fit again"),
    "prior only": ("prior predict_kernel", "prior predict_filter", "sample"),
}


def judge(R, events, what):
    """One obligation for every compiled function or objective in every operation."""
    seen, bad = {}, {}
    for op, e in events:
        if e["kind"] == "jit_enter":
            R.anchor("compiled calls")
            seen.setdefault((op, e["fn"]), 0)
        elif e["kind"] == "minimise":
            R.anchor("objectives")
            seen.setdefault((op, "objective of " + e["fn"] + " at " + e["where"]), 0)
        elif e["kind"] == "jit_effect":
            bad.setdefault((op, e["loc"], e["what"]), e)
    for (op, fn) in seen:
        R.ok(f"{what} {op}: {fn} is pure")
    for (op, loc, why) in bad:
        R.bad(f"{what} {op}: {loc}: {why}", f"{loc}: a function that is compiled or traced {why} ({what}, {op})")


def pipes(R, prop, model, scheme, history, mode):
    p = run_pipe(model, scheme, mode, nf=False, ops=HISTORIES[history])
    judge(R, p.events(), f"{model} {scheme} [{mode}], {history}")
    R.absorb(p.I)


def utils(R, prop, nm, args):
    r = run_util(nm, args)
    judge(R, [("", e) for e in r.I.events], f"utility {nm}")
    R.absorb(r.I)


def jobs(prop):
    def f(tier):
        out = [("c_jit", "pipes", (prop, m, s, h, "explicit")) for m in MODELS for s in SCHEMES for h in HISTORIES]
        out += [("c_jit", "pipes", (prop, m, s, "fit first", "auto")) for m in MODELS for s in SCHEMES]
        out += [("c_jit", "utils", (prop, nm, a)) for nm, a in UTILS]
        return out
    return f
