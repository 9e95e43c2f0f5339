"""Closed-form integrals are the integrals that define them (C30).

The normal form of what the code returns is compared with the defining integral at random points.
The definitions are those of the paper, in terms of the public attributes of a model: nothing of
the repository is executed."""
import itertools
import re

import numpy as np

from .pipe import *
from .report import where_of
from .client import client
from .c_pipe import t1s
from . import c_jac
from . import lib as L

GL = np.polynomial.legendre.leggauss(60)


def quad(f, lo, hi, pieces=1):
    """Integral of a vectorised function of one variable, whose arrays of limits are broadcast.
    A new last axis runs over the nodes."""
    lo, hi = np.broadcast_arrays(np.asarray(lo, float), np.asarray(hi, float))
    total = 0.0
    for k in range(pieces):
        a = lo + (hi - lo) * k / pieces
        h = (hi - lo) / pieces
        x = a[..., None] + h[..., None] * (GL[0] + 1) / 2
        total = total + np.sum(f(x) * GL[1], axis=-1) * h / 2
    return total


# -- evaluation
class Bag:
    """A fixed indexable function, for names of derived symbols."""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, x):
        return lambda y: self.f(x, y)


class Point(nfeval.Env):
    """A point at which the inputs have given values and the number of frequencies is fixed.
    Symbols without a meaning at this point are not evaluated."""

    def __init__(self, seed, values, m_max=2):
        super().__init__(seed)
        self.values = dict(values, pi=np.pi)
        self.m_max = m_max

    def parse(self, s):
        s = re.sub(r"range\[[^\[\]]*\]", "R", s)
        s = re.sub(r"\[-\d\]", "", s).replace("{", "[").replace("}", "]").replace("^", "**")
        space = {
            "R": np.arange(2 * self.m_max + 1), "m_max": self.m_max, "argsort": lambda x: np.argsort(x, kind="stable"),
            "ge0": lambda x: (np.asarray(x) >= 0) * 1, "gt0": lambda x: (np.asarray(x) > 0) * 1, "eq0": lambda x: (np.asarray(x) == 0) * 1,
            "abs": np.abs, "sign": np.sign, "index": Bag(lambda x, y: y[x]), "select": Bag(lambda x, y: y[np.asarray(x) != 0]),
        }
        if not re.fullmatch(r"[\w\s+\-*/()\[\].,]*", s):
            raise nfeval.NoEval(s)
        try:
            return eval(s, {"__builtins__": {}}, space)
        except Exception as e:
            raise nfeval.NoEval(f"{s}: {e}")

    def isdim(self, a):
        return a[1] == "m_max" or super().isdim(a) and a[1] not in self.values

    def dimatom(self, a):
        if a[0] == "s" and a[1] == "m_max":
            return self.m_max
        if a[0] == "s" and a[1].startswith("?m:"):
            return int(np.sum(self.parse(a[1][3:]) != 0))
        return super().dimatom(a)

    def sym(self, a, shape):
        key = a[1]
        if key == "delta" or key.startswith("e:"):
            return super().sym(a, shape)
        if key.startswith("sg:"):
            key = key[3:]
        if key in self.values:
            v = np.asarray(self.values[key](shape) if callable(self.values[key]) else self.values[key], float)
        elif key.startswith(("range[", "select{", "index{")):
            v = np.asarray(self.parse(key), float)
        else:
            raise nfeval.NoEval(key)
        if v.shape != tuple(shape):
            raise nfeval.NoEval(f"shape of {key}")
        return v

    def opaque(self, name, xs):
        raise nfeval.NoEval(name)

    def value(self, v):
        """Value of an abstract tensor. Also says whether an unknown rearrangement was left out."""
        if v.nf is not None:
            nf = nfeval.elements(v.nf)
            k = len(v.sh)
            sz = {}
            for i, d in enumerate(v.sh):
                sz[i - k] = self.dim(d)
            return self.ev(nf, sz, [i - k for i in range(k)]), False
        t = v.tree
        if t is None:
            raise nfeval.NoEval("no normal form")
        if t[0] == "cat":
            xs = [self.value(x) for x in t[2]]
            k = t[1]
            return np.concatenate([x for x, _ in xs], axis=k), any(u for _, u in xs)
        if t[0] == "take":
            x, u = self.value(t[3])
            if t[2].nf is None:
                return x, True
            i, _ = self.value(t[2])
            return np.take(x, i.astype(int), axis=t[1]), u
        raise nfeval.NoEval(t[0])


def orders(x, axes):
    """All simultaneous rearrangements of axes."""
    for p in itertools.permutations(range(x.shape[axes[0]])):
        y = x
        for a in axes:
            y = np.take(y, p, axis=a)
        yield y


def agree(v, oracle, points, axes=None, tol=1e-5):
    """Does an abstract tensor equal what an oracle gives at points? `axes` may have been rearranged."""
    good = bad = 0
    why = "no points"
    for p in points:
        try:
            with np.errstate(all="ignore"):
                x, loose = p.value(v)
                want = oracle(p)
            wants = want if isinstance(want, list) else [want]
            if not (np.all(np.isfinite(x)) and all(np.all(np.isfinite(w)) for w in wants)):
                why = "not finite"
                continue
            if any(x.shape != w.shape for w in wants):
                why = f"shape {x.shape}"
                continue

            def close(y):
                return any(np.max(np.abs(y - w)) <= tol * max(np.max(np.abs(w)), 1e-12) for w in wants)

            if close(x) or (loose and axes and any(close(y) for y in orders(x, axes))):
                good += 1
            else:
                bad += 1
        except (nfeval.NoEval, np.linalg.LinAlgError, N.TooBig, KeyError) as e:
            why = str(e)[:120]
    if bad >= 2 or bad and not good:
        return False, why
    return (True if good else None), why


def judge(R, key, v, oracle, points, msg, axes=None):
    R.anchor("definitions")
    res, why = agree(v, oracle, points, axes)
    if res is None:
        R.open(key, why)
    else:
        R.check(key, res, msg)


# -- integrals of exponentiated quadratics
SHAPE = ()


def quadratic(R, prop, part, parts):
    """Integrals of exponentiated quadratics over lines, half-lines and boxes."""
    todo = [x for i, x in enumerate(c_jac.cases()) if i % parts == part]
    src = c_jac.SRC
    infos = []
    for k, (meth, vs) in enumerate(todo):
        text, names, args, limits = c_jac.case(k, meth, vs)
        src += text
        infos.append((meth, vs, names, args, limits))
    prog = Program()
    F = client(prog, src)
    r = Run(prog, contract=fresh_contract)
    I, st = r.I, r.st
    e = r.call(F["make"], *c_jac.coefficients(SHAPE))
    for k, (meth, vs, names, args, limits) in enumerate(infos):
        kw = {a.arg: tin(a.arg, SHAPE) for a in F[f"case{k}"].fns[0].node.args.args[1:]}
        key = f"{meth} over {', '.join(v if isinstance(v, str) else f'{v[0]} ({v[1]})' for v in vs)}"
        try:
            v = L.asv(I, st, r.call(F[f"case{k}"], e, **kw))
        except AbsRaise as ex:
            R.open(key, f"raises {ex.name}")
            continue

        def oracle(p):
            z = p.values
            f = lambda x, y: z["c"] * np.exp(-z["a"] * x**2 + z["b"] * x * y - z["d"] * y**2 + z["e"] * x + z["f"] * y + z["g"])
            free = {q: z[q] for q in ("x", "y") if q in kw}
            lims = {q: tuple(12.0 * t if isinstance(t, int) else sum(z[u] * c for u, c in t) for t in limits[q]) for q in names}
            if len(names) == 1:
                g = (lambda x: f(x, free["y"])) if names[0] == "x" else (lambda y: f(free["x"], y))
                return np.asarray(quad(g, *lims[names[0]], pieces=6))
            inner = lambda y: quad(lambda x: f(x, y[..., None]), np.full(y.shape, lims["x"][0]), np.full(y.shape, lims["x"][1]), 6)
            return np.asarray(quad(inner, *lims["y"], pieces=6))

        points = []
        for s in range(3):
            g = np.random.default_rng(s)
            vals = {q: g.uniform(0.4, 1.2) for q in "acd"}
            vals["b"] = g.uniform(0.2, 0.9) * 2 * np.sqrt(vals["a"] * vals["d"]) * g.choice([-1, 1])
            vals.update({q: g.normal() for q in ("e", "f", "g", "x", "y", *(f"{q}{i}" for q in "xy" for i in (1, 2, 3, 9)))})
            points.append(Point(s, vals))
        judge(R, key, v, oracle, points, f"{where_of(prog, 'ExpPoly', meth)}: not the integral of the exponentiated quadratic")
    R.absorb(I)


# -- models
def given(I, st, path, op, init):
    """Every stored variable has its initial value, which is an input."""
    if init is None:
        return None
    v = L.asv(I, st, init)
    return v if isinstance(v.sh, tuple) else None


def values(model, seed):
    g = np.random.default_rng(seed)
    pos = lambda: g.uniform(0.4, 1.5)
    v = {"alpha": pos(), "alpha_t": pos(), "noise": pos(), "gamma": pos()}
    later = {}

    def vec(lo, hi):
        u = g.uniform(lo, hi, 12)
        return lambda shape: np.resize(u, shape)

    def spaced(lo, step):
        u = lo + step * (np.arange(12) + g.uniform(-0.2, 0.2, 12))
        return lambda shape: np.resize(u, shape)

    if model == "RGPCM":
        v.update(lam=pos(), a=-5.0 - pos(), b=3.0 + pos(), t_u=spaced(0.2, 0.5), t1=vec(-1.5, 3), t2=vec(-1.5, 3))
        v["gamma"] = v["alpha"] * g.uniform(0.2, 0.6)
    else:
        v.update(omega=pos(), t_u=spaced(-0.9, 0.7), t_z=spaced(-1.5, 0.8), t1=vec(-1.5, 1.5), t2=vec(-1.5, 1.5))
    v["s1"], v["s2"] = v["t1"], v["t2"]
    v["u"] = vec(-1, 1)
    return v


def features(z, tau):
    """Covariances of the Fourier features with the process, in a new axis before the last."""
    m_max, a, b, lam = z["m_max"], z["a"], z["b"], z["lam"]
    out = []
    x = np.maximum(tau, a) - a
    for m in range(2 * m_max + 1):
        w = 2 * np.pi * (m if m <= m_max else m - m_max) / (b - a)
        out.append(np.cos(w * x) * np.exp(-lam * np.maximum(a - tau, 0)) if m <= m_max else np.sin(w * x))
    return out


def definitions(model):
    """The defining integrals, as functions of the values of the attributes of the model."""
    if model == "RGPCM":
        def K_u(z):
            i, j = z["t_u"][:, None], z["t_u"][None, :]
            up = np.minimum(i, j)
            return z["gamma_t"] ** 2 * quad(lambda x: np.exp(-z["gamma"] * (i[..., None] + j[..., None] - 2 * x)), up - 40 / z["gamma"], up, 20)

        def K_z(z):
            M, T, lam = z["m_max"], z["b"] - z["a"], z["lam"]
            x = np.linspace(0, T, 4 * M + 9)[:-1]  # Exact for trigonometric polynomials.
            w = [2 * np.pi * (m if m <= M else m - M) / T for m in range(2 * M + 1)]
            f = np.stack([np.cos(q * x) if m <= M else np.sin(q * x) for m, q in enumerate(w)])
            d = np.stack([-q * np.sin(q * x) if m <= M else q * np.cos(q * x) for m, q in enumerate(w)])
            ends = np.array([1.0 if m <= M else 0.0 for m in range(2 * M + 1)])
            return (d @ d.T + lam**2 * f @ f.T) * T / len(x) / (2 * lam) + np.outer(ends, ends)

        def i_hx(z):
            d = np.abs(z["t1"][:, None] - z["t2"][None, :])
            return z["alpha_t"] ** 2 * np.exp(-z["lam"] * d) * quad(lambda s: np.exp(-2 * z["alpha"] * s), 0, 20 / z["alpha"], 20)

        def I_ux(z, t1=None, t2=None):
            t1 = z["t1"] if t1 is None else t1
            t2 = z["t2"] if t2 is None else t2
            a, b = t1[:, None, None, None], t2[None, :, None, None]
            k = z["gamma"] - z["alpha"]

            def make(i, j):
                # Filter and inducing variable `i` at `s1`, and `j` at `s2`.
                def outer(s1):
                    def inner(lo, hi):
                        g = lambda s2: np.exp(k * s2 - z["lam"] * np.abs((a - b)[..., None, None] - s1[..., None] + s2))
                        return quad(g, lo, hi)
                    J = np.broadcast_to(j[..., None], s1.shape)
                    kink = np.clip(s1 - (a - b)[..., None], 0, J)
                    return np.exp(k * s1) * (inner(np.zeros_like(kink), kink) + inner(kink, J))

                I_, J_, D = np.broadcast_arrays(i, j, a - b)
                # The outer integrand has kinks where the inner kink reaches the ends.
                c1, c2 = np.clip(D, 0, I_), np.clip(D + J_, 0, I_)
                lo, hi = np.minimum(c1, c2), np.maximum(c1, c2)
                total = quad(outer, np.zeros_like(lo), lo) + quad(outer, lo, hi) + quad(outer, hi, I_)
                return (z["alpha_t"] * z["gamma_t"]) ** 2 * np.exp(-z["gamma"] * (i + j)) * total

            i, j = z["t_u"][None, None, :, None], z["t_u"][None, None, None, :]
            return [make(i, j), make(j, i)]

        def I_hz(z):
            t = z["t1"]
            def g(lo, hi):
                def f(s):
                    c = np.stack(features(z, t[:, None] - s))
                    return np.exp(-2 * z["alpha"] * s) * c[:, None] * c[None, :]
                return quad(f, lo, hi, 10)
            r = g(np.zeros_like(t), t - z["a"]) + g(t - z["a"], t - z["a"] + 20 / z["alpha"])
            return z["alpha_t"] ** 2 * np.moveaxis(r, -1, 0)

        def I_uz(z):
            t, u = z["t1"][:, None], z["t_u"][None, :]
            def f(s):
                return np.exp((z["gamma"] - z["alpha"]) * s) * np.stack(features(z, t[..., None] - s))
            r = quad(f, np.zeros_like(t + u), u + 0 * t, 10)
            return np.moveaxis(r * z["alpha_t"] * z["gamma_t"] * np.exp(-z["gamma"] * u), 0, -1)
    else:
        causal = model == "CGPCM"

        def k_h(z, x, y):
            return z["alpha_t"] ** 2 * np.exp(-z["alpha"] * (x**2 + y**2) - z["gamma"] * (x - y) ** 2)

        def k_xs(z, x, y):
            return z["omega_t"] * np.exp(-z["omega"] * (x - y) ** 2)

        def upper(x):
            return x if causal else np.full_like(x, 12.0)

        def K_u(z):
            return k_h(z, z["t_u"][:, None], z["t_u"][None, :])

        def K_z(z):
            i, j = z["t_z"][:, None, None], z["t_z"][None, :, None]
            return quad(lambda x: k_xs(z, i, x) * k_xs(z, x, j), np.full(i.shape[:1] * 2, -14.0), np.full(i.shape[:1] * 2, 14.0), 8)

        def i_hx(z):
            a, b = np.broadcast_arrays(z["t1"][:, None], z["t2"][None, :])
            return quad(lambda x: k_h(z, a[..., None] - x, b[..., None] - x), np.full(a.shape, -14.0), upper(np.minimum(a, b)), 8)

        def I_ux(z, t1=None, t2=None):
            t1 = z["t1"] if t1 is None else t1
            t2 = z["t2"] if t2 is None else t2
            a, b, i, j = np.broadcast_arrays(t1[:, None, None, None], t2[None, :, None, None], z["t_u"][None, None, :, None], z["t_u"][None, None, None, :])
            def make(i, j):
                f = lambda x: k_h(z, a[..., None] - x, i[..., None]) * k_h(z, j[..., None], b[..., None] - x)
                return quad(f, np.full(a.shape, -14.0), upper(np.minimum(a, b)), 8)
            return [make(i, j), make(j, i)]

        def I_hz(z):
            t, i, j = np.broadcast_arrays(z["t1"][:, None, None], z["t_z"][None, :, None], z["t_z"][None, None, :])
            def outer(x):
                y = lambda y: k_h(z, (t[..., None] - x)[..., None], t[..., None, None] - y) * k_xs(z, y, j[..., None, None])
                up = np.broadcast_to(upper(t)[..., None], x.shape)
                return quad(y, np.full(x.shape, -14.0), up, 4) * k_xs(z, x, i[..., None])
            return quad(outer, np.full(t.shape, -14.0), upper(t), 4)

        def I_uz(z):
            t, i, j = np.broadcast_arrays(z["t1"][:, None, None], z["t_u"][None, :, None], z["t_z"][None, None, :])
            f = lambda x: k_h(z, t[..., None] - x, i[..., None]) * k_xs(z, x, j[..., None])
            return quad(f, np.full(t.shape, -14.0), upper(t), 8)

    def I_ux_0(z):
        o = np.zeros(1)
        return [x[0, 0] for x in I_ux(z, o, o)]

    def kernel(z):
        # For given inducing variables, a second moment that is conditional on them.
        K = np.linalg.inv(K_u(z))
        m = K @ z["u"]
        return i_hx(z) + np.einsum("abij,ij->ab", I_ux(z)[0], np.outer(m, m) - K)

    return dict(K_u=K_u, K_z=K_z, i_hx=i_hx, I_ux=I_ux, I_ux_0=I_ux_0, I_hz=I_hz, I_uz=I_uz, kernel=kernel)


CALLS = [
    ("K_u", "compute_K_u", (), "covariance of the filter inducing variables"),
    ("K_z", "compute_K_z", (), "covariance of the excitation inducing variables"),
    ("i_hx", "compute_i_hx", ("s1", "s2"), "kernel integral"),
    ("I_ux", "compute_I_ux", ("t1", "t2"), "double filter integral"),
    ("I_ux_0", "compute_I_ux", (), "double filter integral at lag zero"),
    ("I_hz", "compute_I_hz", ("t",), "second moment integral of the excitation"),
    ("I_uz", "compute_I_uz", ("t",), "cross integral of filter and excitation"),
    ("kernel", "kernel_approx", ("t1", "t2", "u"), "kernel given the filter inducing variables"),
]


def model_integrals(R, prop, model, which):
    points = [Point(s, values(model, s), 1 + s % 3) for s in range(4)]

    def holds(I, v):
        """Truth of a comparison in the part of the domain that the points are in."""
        if v.nf is None or v.sh != ():
            return None
        try:
            xs = {bool(p.value(v)[0] != 0) for p in points}
        except (nfeval.NoEval, np.linalg.LinAlgError, N.TooBig):
            return None
        return xs.pop() if len(xs) == 1 else None

    r = Run(contract=given, cfg={"holds": holds})
    I, st = r.I, r.st
    x = r.build(model, **model_args(model, "explicit"))
    inst = r.inst(x)
    A = {
        "t1": tin("t1", (t1s,), T=1, w=1), "t2": tin("t2", (t1s,), T=1, w=1),
        "t": tin("t1", (t1s,), T=1, w=1), "u": tin("u", (n_u,)),
    }
    A["s1"], A["s2"] = O.expand(A["t1"], 1), O.expand(A["t2"], 0)
    defs = definitions(model)
    names = ["alpha", "alpha_t", "gamma", "t_u"] + (["gamma_t", "lam", "a", "b"] if model == "RGPCM" else ["omega", "omega_t", "t_z"])
    attrs = {}
    for q in names:
        try:
            attrs[q] = L.asv(I, st, r.attr(inst, q))
        except AbsRaise:
            pass
    name, meth, args, what = next(c for c in CALLS if c[0] == which)
    key = f"{model} {what}"
    try:
        v = L.asv(I, st, r.method(inst, meth, *[A[a] for a in args]))
    except AbsRaise as e:
        R.open(key, f"raises {e.name}")
        return
    def oracle(p):
        z = {"m_max": p.m_max}
        for q, a in attrs.items():
            z[q] = p.value(a)[0]
        z["t1"], z["t2"] = p.value(A["t1"])[0], p.value(A["t2"])[0]
        z["u"] = p.value(A["u"])[0]
        return defs[name](z)

    judge(R, key, v, oracle, points, f"{where_of(r.prog, model, meth)}: the {what} is not the integral that defines it", axes=((-1, -2) if name in ("K_z", "I_hz") else (-1,)) if model == "RGPCM" and name in ("K_z", "I_hz", "I_uz") else None)
    R.absorb(I)


def jobs(prop):
    def f(tier):
        out = [("c_int", "quadratic", (prop, k, 8)) for k in range(8)]
        out += [("c_int", "model_integrals", (prop, m, c[0])) for m in MODELS for c in CALLS]
        return out
    return f
