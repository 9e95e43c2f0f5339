"""Evidence bounds (C31).

A bound is interpreted to a normal form over the integrals of the model, and each integral to a
normal form in the hyperparameters, times and inducing points. By Jensen's inequality, the expected
log-likelihood of the model as it is defined minus the divergences of the factors is at most the
log evidence, for any factors; what the code computes may therefore not be larger. Both are
evaluated, from the expressions alone, at points of the admissible domain."""
import numpy as np

from .c_nf import *
from .c_int import Point, values, given, definitions, CALLS, orders
from .c_pipe import t1s
from . import lib as L

INTEGRALS = {"K_u": "K_u", "K_z": "K_z", "i_hx0": "i_hx", "I_ux": "I_ux_0", "I_hz": "I_hz", "I_uz": "I_uz"}
SEEDS = 6


def closed_forms(model, seeds, n=n):
    """Values of the integrals of the code and of their definitions, at points."""
    points = [Point(s, values(model, s), 1) for s in seeds]

    def holds(I, v):
        if v.nf is None or v.sh != ():
            return None
        try:
            xs = {bool(p.value(v)[0] != 0) for p in points}
        except (nfeval.NoEval, np.linalg.LinAlgError, N.TooBig):
            return None
        return xs.pop() if len(xs) == 1 else None

    r = Run(contract=given, cfg={"holds": holds})
    I, st = r.I, r.st
    inst = r.inst(r.build(model, **model_args(model, "explicit")))
    t = tin("t1", (n,), T=1, w=1)
    forms = {}
    for name, meth, args, _ in CALLS:
        if name not in INTEGRALS.values():
            continue
        a = [t, t] if name == "i_hx" else [t] * len(args) if name != "I_ux_0" else []
        try:
            forms[name] = L.asv(I, st, r.method(inst, meth, *a))
        except AbsRaise:
            forms[name] = None
    attrs = {}
    for q in ["alpha", "alpha_t", "gamma", "t_u", "noise"] + (["gamma_t", "lam", "a", "b"] if model == "RGPCM" else ["omega", "omega_t", "t_z"]):
        try:
            attrs[q] = L.asv(I, st, r.attr(inst, q))
        except AbsRaise:
            pass
    defs = definitions(model)
    out = []
    for p in points:
        z = {"m_max": p.m_max}
        for q, a in attrs.items():
            z[q] = p.value(a)[0]
        z["t1"] = z["t2"] = p.value(t)[0]
        code, ref = {"noise": z.get("noise")}, {"noise": z.get("noise")}
        loose = False
        for sym, name in INTEGRALS.items():
            d = defs[name](z)
            d = d[0] if isinstance(d, list) else d
            ref[sym] = np.diag(d) if name == "i_hx" else d
            try:
                with np.errstate(all="ignore"):
                    if forms[name] is None:
                        raise nfeval.NoEval("raises")
                    c, u = p.value(forms[name])
                code[sym] = np.broadcast_to(c, ref[sym].shape) if c.shape != ref[sym].shape and c.ndim == ref[sym].ndim else c
                loose = loose or u
            except (nfeval.NoEval, np.linalg.LinAlgError, N.TooBig, KeyError, ValueError) as e:
                code[sym] = str(e)[:80]
        if loose and model == "RGPCM":
            # The order of the features is arbitrary.
            zs = [(s, ax) for s, ax in (("K_z", (0, 1)), ("I_hz", (1, 2)), ("I_uz", (2,))) if not isinstance(code[s], str)]
            if zs:
                def err(k):
                    return sum(np.max(np.abs(take(ref[s], ax, k) - code[s])) for s, ax in zs)

                def take(x, ax, k):
                    for a in ax:
                        x = np.take(x, k, axis=a)
                    return x

                import itertools
                k = min(itertools.permutations(range(ref["K_z"].shape[0])), key=err)
                for s, ax in (("K_z", (0, 1)), ("I_hz", (1, 2)), ("I_uz", (2,))):
                    ref[s] = take(ref[s], ax, k)
        out.append((p.seed, code, ref))
    return out, r


class At(nfeval.Env):
    """A point at which the integrals and the noise are given."""

    def __init__(self, seed, given):
        super().__init__(seed)
        self.given = given

    def dimatom(self, a):
        return 1 if a[0] == "s" and a[1] == "m_max" else super().dimatom(a)

    def sym(self, a, shape):
        key = a[1] if isinstance(a[1], str) else repr(a[1])
        base = key.split("[")[0]
        if base in INTEGRALS or base == "noise":
            v = self.given.get(base)
            if v is None or isinstance(v, str) or ("[" in key and not key.endswith("]")):
                raise nfeval.NoEval(f"{key}: {v}")
            v = np.asarray(v, float)
            if v.shape != tuple(shape):
                raise nfeval.NoEval(f"shape of {key}")
            return v
        if base.startswith(("I_", "i_", "K_")):
            raise nfeval.NoEval(key)
        return super().sym(a, shape)


def compare(v, ref, forms):
    """Largest amount by which a value exceeds the reference, over points, and the number of points."""
    worst, count, why = -np.inf, 0, "no points"
    for seed, code, true in forms:
        try:
            with np.errstate(all="ignore"):
                x = At(seed, code).ev(nfeval.elements(v.nf), {}, [])
                r = At(seed, true).ev(nfeval.elements(ref.nf), {}, [])
            if not (np.isfinite(x) and np.isfinite(r)):
                why = "not finite"
                continue
            worst = max(worst, float(x - r) / max(1.0, abs(float(r))))
            count += 1
        except (nfeval.NoEval, np.linalg.LinAlgError, N.TooBig) as e:
            why = str(e)[:120]
    return worst, count, why


def bounded(R, key, v, ref, forms, msg):
    if not isinstance(v, V) or v.nf is None or ref.nf is None:
        return R.open(key, "no normal form")
    R.anchor("bounds")
    worst, count, why = compare(v, ref, forms)
    if not count:
        return R.open(key, why)
    R.check(key, worst <= 1e-4, msg, f"at most the reference at {count} points")


def bounds(R, prop, model, scheme):
    forms, r0 = closed_forms(model, range(SEEDS))
    R.absorb(r0.I)
    x = Ctx(model, scheme, TwoSamples if scheme == "structured" else None)
    p = x.p
    I, st = p.I, p.st
    D = Draws(p) if scheme == "structured" else None
    obj = p.m
    for i in (0, 1):
        t, y = (p.t, p.y) if i == 0 else (p.t2, p.y2)
        inst = p.inst(obj)
        r = Ref_(p, inst, t, y)
        tag = f"{model} {scheme}, {'first' if i == 0 else 'second'} posterior"
        pu, pz = x.prior("q_u", i, r), x.prior("q_z", i, r)
        if i == 1:
            # Times of the second data set are placed like those of the first.
            forms = second(model)
        if scheme == "mean-field":
            for c in (None, "z", "u"):
                ref, _, _ = ref_elbo(x, r, i, c)
                kw = {} if c is None else {"collapsed": num(c)}
                try:
                    v = L.asv(I, st, p.method(obj, "elbo", t, y, **kw))
                except AbsRaise as e:
                    R.open(f"{tag}: bound, collapsed={c}", f"raises {e.name}")
                    continue
                bounded(R, f"{tag}: bound, collapsed={c}", v, ref, forms, f"{where_of(I.prog, 'MeanField', 'elbo')}: the bound of {model} (collapsed={c}, {'first' if i == 0 else 'second'} posterior) exceeds the expected log-likelihood minus the divergences of the factors at an admissible point")
        else:
            for ns in (1, 2):
                D.log.clear()
                key = f"{tag}: bound, {ns} samples"
                try:
                    v = L.asv(I, st, p.method(obj, "elbo", t, y, num_samples=num(ns)))
                except AbsRaise as e:
                    R.open(key, f"raises {e.name}")
                    continue
                us = [d for d in D.log if d["side"] == "q_u"]
                if len(us) != 1 or us[0]["v"].sh != (n_u, N.const(ns)):
                    R.open(key, f"{len(us)} draws")
                    continue
                where = where_of(I.prog, "Structured", "elbo_collapsed_z")

                def at(u, p0):
                    qz = r.opt_z(u, mm(u, T_(u)), p0)
                    m, m2, _ = moments(*qz)
                    return sub(r.loglik(r.m1(u, m), r.m2(mm(u, T_(u)), m2)), kl(qz, p0))

                refs = []
                for p0 in {0: pz, 1: x.prior("q_z", 0, r)}.values():
                    total = None
                    for k in range(ns):
                        b = at(col(us[0]["v"], k), p0)
                        total = b if total is None else add(total, b)
                    refs.append(sub(mul(num(1 / ns), total), kl(x.par("q_u", i), pu)))
                # Either prior of the excitation makes it a bound: which one is the matter of C25.
                R.anchor("bounds")
                if v.nf is None or any(q.nf is None for q in refs):
                    R.open(key, "no normal form")
                    continue
                res = [compare(v, q, forms) for q in refs]
                if not any(c for _, c, _ in res):
                    R.open(key, res[0][2])
                    continue
                R.check(key, any(c and w <= 1e-4 for w, c, _ in res), f"{where}: the bound of {model} ({'first' if i == 0 else 'second'} posterior) exceeds the average log-evidence given samples of u minus the divergence of the factor of u at an admissible point", f"{res[0][1]} points")
                a = x.par("q_u", i)
                for nm, leaf, b in (("shift", "lam", a[0]), ("precision", "prec", a[1])):
                    want(R, f"{key}: distribution of the samples ({nm})", us[0][leaf], b, f"{where}: the samples of the estimate are not drawn from the factor whose divergence is charged, so that its expectation is no bound")
        if i == 0:
            obj = p.op("condition", obj, "condition", t, y)
            if obj is None:
                R.open(f"{model} {scheme}, second posterior", "condition raises")
                break
    R.absorb(I)


def second(model):
    """As the closed forms, for the number of times of the second data set."""
    return closed_forms(model, range(SEEDS), N.sym("n2", 0, "+"))[0]


def jobs(prop):
    return lambda tier: [("c_bound", "bounds", (prop, m, s)) for m in MODELS for s in ("mean-field", "structured")]
