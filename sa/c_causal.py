"""Causality (C18): the limits of the integrals over the excitation, and the support of the filter.

The integrals of the models over exponentiated quadratics are intercepted. Which variable is the
excitation time is decided by the integrand: shifting it together with the observation times and
the inducing points of the excitation must leave the integrand unchanged.
"""
from .pipe import *
from .report import where_of
from .c_pipe import integral_sinks
from . import lib as L
from . import libep

TIMES = ("t1", "t2", "s1", "s2")


def unlabel(x):
    """The expression at one generic element per time."""
    out = NF()
    for m, c in x.t.items():
        y = N.const(c)
        for a, e in m:
            if a[0] == "s" and a[1] in TIMES:
                z = N.from_mono(1, [(("s", a[1], tuple("@x" for _ in a[2]), a[3]), N.Fraction(1))])
            elif a[0] == "p":
                z = unlabel(a[1])
            elif a[0] == "f" and not a[3]:
                z = N.fn(a[1], *[unlabel(q) if isinstance(q, NF) else q for q in a[2]])
            else:
                z = N.from_mono(1, [(a, N.Fraction(1))])
            y = y * (z.pow(e) if e != 1 else z)
        out = out + y
    return out


def inf(v):
    """Sign of an infinite constant."""
    if isinstance(v, V) and v.is_const and isinstance(v.c, float) and abs(v.c) == float("inf"):
        return 1 if v.c > 0 else -1
    return 0


def evaluate(I, st, x, env):
    """Value of a limit or of an integrand."""
    if isinstance(x, V):
        return x
    try:
        f = I.getattr(x, "eval", st, None)
        return L.asv(I, st, I.call(f, [], dict(env), None, st))
    except AbsRaise:
        return None


def limits(R, prop, model, mode, causal):
    log = []

    def hook(I, st, fn, args, kw, node):
        log.append((args[0], [L.concrete_items(I, st, a) for a in args[1:]], kw, I.loc(node)))
        return V(u=U1, lo=(), sh=None)

    prog = Program()
    r = Run(prog, contract=fresh_contract, hooks={where_of(prog, "ExpPoly", "integrate_box"): hook})
    I, st = r.I, r.st
    kw = dict(model_args(model, mode))
    if causal is not None:
        kw["causal"] = num(causal)
    inst = r.inst(r.build(model, **kw))
    causal = model == "CGPCM" if causal is None else causal
    word = "causal" if causal else "acausal"
    A, o = integral_sinks(model, Units(model))
    o = o + [("compute_I_ux", ["t1", "t1"], None, None)]
    for f, args, _, _ in o:
        if f in ("compute_K_u", "compute_K_z") or isinstance(args, dict):
            continue
        log.clear()
        tag = f"{word} {model} {f}({', '.join(args)}) [{mode}]"
        where = where_of(prog, model, f)
        where = next((i.where for i in find_fn(prog, f)), f) if where.endswith("." + f) and where.startswith(model) else where
        try:
            r.method(inst, f, *[A[a] for a in args])
        except AbsRaise as e:
            R.open(tag, f"raises {e.name}")
            continue
        if not log:
            R.open(tag, "no integral")
        ts = [A[a] for a in args]
        if not ts:
            want = num(0.0)
        elif len(ts) == 1:
            want = ts[0]
        else:
            want = O.vminmax("minimum", ts[0].but(sh=()), ts[1].but(sh=()))
        for ep, lims, env, loc in log:
            for k, q in enumerate(lims):
                key = f"{tag}, variable {k + 1}"
                if q is None or len(q) != 3:
                    R.open(key, "unknown limits")
                    continue
                R.anchor("limits")
                name, lo, hi = q
                if inf(lo) == -1 and inf(hi) == 1:
                    R.check(f"{key}: covers what it should", not causal, f"{where}: the {word} model integrates over the whole time axis, which includes the future of the observation ({loc})")
                    continue
                if not causal:
                    R.check(f"{key}: covers what it should", False if inf(lo) or inf(hi) else None, f"{where}: the {word} model does not integrate over the whole time axis ({loc})")
                    continue
                taus = {z[0].c: tin(f"tau{j}", (), T=1) for j, z in enumerate(lims) if z and isinstance(z[0], V) and z[0].is_const}
                x = evaluate(I, st, ep, {**env, **taus})
                w = dict.fromkeys(list(TIMES) + ["t_z"], 1.0)
                w.update({f"tau{j}": 1.0 for j in range(len(lims))})
                is_time = nfeval.invariant(x.nf, w) if x is not None and x.nf is not None else None
                if not args:
                    # Both times are zero: the variable is the excitation time or its negative.
                    is_time = inf(lo) == -1
                if is_time is not True:
                    R.open(key, "not an integral over excitation times")
                    continue
                v = evaluate(I, st, hi, env)
                if v is None or v.nf is None:
                    R.open(key, "unknown limit")
                    continue
                R.check(f"{key}: from the infinite past", inf(lo) == -1 or None, f"{where}: the integral does not start in the infinite past ({loc})")
                R.check(f"{key}: up to the observation", nfeval.same(unlabel(v.nf), unlabel(want.nf), piecewise=True), f"{where}: the causal model integrates up to {N_str(v.nf)} instead of the {'earliest ' if len(args) > 1 else ''}time of the observation ({loc})")
    R.absorb(I)


def N_str(x):
    s = repr(x)
    return s if len(s) < 80 else s[:77] + "..."


def support(R, prop, model, mode, causal):
    """The kernel of the filter at negative and positive lags."""
    prog = Program()
    r = Run(prog, contract=fresh_contract)
    I, st = r.I, r.st
    kw = dict(model_args(model, mode))
    if causal is not None:
        kw["causal"] = num(causal)
    inst = r.inst(r.build(model, **kw))
    causal = model != "GPCM" if causal is None else causal
    word = f"{'causal' if causal else 'acausal'} {model} [{mode}]"
    where = where_of(prog, model, "k_h")
    try:
        k = r.method(inst, "k_h")
    except AbsRaise as e:
        return R.open(word, f"raises {e.name}")
    a, b = tin("lag1", (), T=1, flags="+"), tin("lag2", (), T=1, flags="+")
    for tag, x, y in (("two negative lags", O.vneg(a), O.vneg(b)), ("a negative and a positive lag", O.vneg(a), b), ("a positive and a negative lag", a, O.vneg(b)), ("two positive lags", a, b)):
        v = I.call(k, [x, y], {}, None, st) if not isinstance(k, EObj) else libep.kernel_eval(I, st, k, x, y, None)
        v = L.asv(I, st, v)
        R.anchor("lags")
        z = nfeval.same(v.nf, NF()) if v.nf is not None else None
        neg = "negative" in tag
        ok = None if z is None else (z is True) == (causal and neg)
        R.check(f"{word}: filter at {tag}", ok, f"{where}: the kernel of the {word.split()[0]} filter {'does not vanish' if causal and neg else 'vanishes'} at {tag}")
    R.absorb(I)


def jobs(prop):
    def f(tier):
        out = []
        for mode in ("explicit", "auto"):
            for model in ("GPCM", "CGPCM"):
                for c in (None, True, False):
                    out += [("c_causal", g, (prop, model, mode, c)) for g in ("limits", "support")]
            out.append(("c_causal", "support", (prop, "RGPCM", mode, None)))
        return out
    return f
