"""Normalisation of amplitudes (C26)."""
from .pipe import *
from .report import where_of
from .client import client
from . import lib as L


def initial(I, st, path, op, init):
    """Every stored variable has its initial value."""
    if op is None or init is None:
        return None
    v = L.asv(I, st, init)
    return v if isinstance(v.sh, tuple) else None


DIAG = '''
import lab.jax as B


def power(model):
    return model.compute_i_hx()


def power_at(model, t):
    return model.compute_i_hx(t, t)


def var_u(model):
    return B.diag(B.dense(model.compute_K_u()))


def var_z(model):
    return B.diag(B.dense(model.compute_K_z()))
'''

# Ways to give a model without its amplitudes.
def ways(model):
    ex = model_args(model, "explicit")
    ex.pop("alpha_t")
    au = model_args(model, "auto")
    out = {"decays given": ex, "from window and length scale": au}
    k = {a: v for a, v in ex.items() if a != "alpha"}
    out["window and remaining decays given"] = {**k, "window": au["window"]}
    k = dict(au)
    k["alpha"] = ex["alpha"]
    out["decay and length scale given"] = k
    g = "lam" if model == "RGPCM" else "gamma"
    k = dict(au)
    k[g] = ex[g]
    out["window and decay of the prior given"] = k
    k = {a: v for a, v in ex.items() if a not in ("omega", "gamma" if model == "RGPCM" else "omega")}
    out["decay of the inducing variables from their spacing"] = k
    return out


def unit_power(R, prop, model, k):
    for nm, kw in list(ways(model).items())[k : k + 1]:
        for fixed in ((), ("fix_window", "fix_scale", "fix_noise")):
            prog = Program()
            F = client(prog, DIAG)
            r = Run(prog, contract=initial)
            args = {**kw, **{f: num(True) for f in fixed}}
            tag = f"{model} {nm}" + (" and fixed" if fixed else "")
            try:
                m = r.inst(r.build(model, **args))
            except AbsRaise as e:
                R.open(tag, f"raises {e.name}")
                R.absorb(r.I)
                continue
            qs = [("power", "prior variance of the function", "compute_i_hx", ())]
            qs.append(("power_at", "prior variance of the function at any time", "compute_i_hx", (tin("t", (n,), T=1, w=1),)))
            if model == "RGPCM":
                qs.append(("var_u", "prior variance of the inducing variables of the filter", "compute_K_u", ()))
            else:
                qs.append(("var_z", "prior variance of the inducing variables of the excitation", "compute_K_z", ()))
            for f, what, g, extra in qs:
                R.anchor("amplitudes")
                key = f"{tag}: {what}"
                try:
                    v = L.asv(r.I, r.st, r.call(F[f], m, *extra))
                except AbsRaise as e:
                    R.open(key, f"raises {e.name}")
                    continue
                if v.nf is None:
                    R.open(key, "no normal form")
                    continue
                R.same(key, v.nf, N.const(1), f"{where_of(prog, model, '__init__')} and {where_of(prog, model, g)}: the {what} is not one if the amplitude is not given ({nm}), but {str(v.nf)[:160]}", piecewise=True)
            R.absorb(r.I)


def jobs(prop):
    def f(tier):
        if prop == "C26":
            return [("c_num", "unit_power", (prop, m, k)) for m in MODELS for k in range(6)]
    return f
