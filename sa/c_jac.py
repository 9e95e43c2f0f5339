"""Integrals of exponentiated quadratics scale with the Jacobian (C03)."""
from .pipe import *
from .report import where_of
from .client import client
from . import lib as L

# The first variable has unit T, the second has unit Y, and neither has anything else in common.
SRC = '''
import numpy as np
import lab.jax as B
from gpcm.exppoly import ExpPoly, var, const


def make(c, a, b, d, e, f, g):
    x, y = var("x"), var("y")
    return ExpPoly(c, const(a) * x**2 + const(b) * x * y + const(d) * y**2 + const(e) * x + const(f) * y + const(g))


def square(c, a, s, d):
    return ExpPoly(c, const(a) * (var("x") - const(s) * var("y")) ** 2 + const(d) * var("y") ** 2)
'''

def coefficients(shape):
    c = tin("c", shape, flags="+")
    a, d = (O.vneg(tin(x, shape, flags="+", **{u: -2})) for x, u in (("a", "T"), ("d", "Y")))
    return c, a, tin("b", shape, T=-1, Y=-1), d, tin("e", shape, T=-1), tin("f", shape, Y=-1), tin("g", shape)


# Methods, integrated variables with the kinds of their limits.
LIMITS = ("line", "below", "above", "between", "below value", "above sum")


def cases():
    out = [("integrate", v) for v in (("x",), ("y",), ("x", "y"), ("y", "x"))]
    out += [("integrate_half", v) for v in (("x",), ("y",), ("x", "y"), ("y", "x"))]
    for l1 in LIMITS:
        out += [("integrate_box", ((v, l1),)) for v in ("x", "y")]
        for l2 in LIMITS:
            if l2 != "below value" and l1 != "below value":
                out += [("integrate_box", ((v, l1), (w, l2))) for v, w in (("x", "y"), ("y", "x"))]
    return out


def case(k, meth, vs):
    """A client that computes an integral: its text, integrated variables and arguments, and limits as
    linear combinations of symbols (or -1 and 1 for infinities)."""
    names = [v if isinstance(v, str) else v[0] for v in vs]
    rest = [v for v in ("x", "y") if v not in names]
    args, extra, limits = [], set(rest), {}
    for v in vs:
        if isinstance(v, str):
            args.append(f'"{v}"')
            limits[v] = (-1, 1) if meth == "integrate" else (-1, ())
            continue
        v, kind = v
        p, q, s = f"{v}1", f"{v}2", f"{v}3"
        lo, hi = {
            "line": ("-np.inf", "np.inf"), "below": ("-np.inf", f'var("{p}")'), "above": (f'var("{p}")', "np.inf"),
            "between": (f'var("{p}")', f'var("{q}")'), "below value": ("-np.inf", f"{v}9"), "above sum": (f'var("{p}") + const(3) * var("{s}")', "np.inf"),
        }[kind]
        limits[v] = {
            "line": (-1, 1), "below": (-1, ((p, 1),)), "above": (((p, 1),), 1), "between": (((p, 1),), ((q, 1),)),
            "below value": (-1, ((f"{v}9", 1),)), "above sum": (((p, 1), (s, 3)), 1),
        }[kind]
        extra |= {"between": {p, q}, "above sum": {p, s}, "line": set()}.get(kind, {p})
        args.append(f'("{v}", {lo}, {hi})')
    kws = ", ".join(f"{z}={z}" for z in sorted(extra))
    nine = sorted({f"{v[0]}9" for v in vs if not isinstance(v, str) and v[1] == "below value"})
    text = f"\n\ndef case{k}(e{''.join(', ' + z for z in nine + sorted(extra))}):\n    return e.{meth}({', '.join(args)}{', ' if kws else ''}{kws})\n"
    return text, names, args, limits


def jacobian(R, prop, shape, part, parts):
    """Dimensions of the integrals, for two independent dimensions of two variables."""
    src = SRC
    groups = {}
    for m, vs in cases():
        groups.setdefault((m, tuple(sorted(map(str, vs)))), []).append((m, vs))
    todo = [x for g in sorted(groups)[part::parts] for x in groups[g]]
    for k, (meth, vs) in enumerate(todo):
        src += case(k, meth, vs)[0]
    prog = Program()
    F = client(prog, src)
    r = Run(prog, contract=fresh_contract)
    I, st = r.I, r.st
    results = {}
    for form in ("general", "square"):
        if form == "general":
            e = r.call(F["make"], *coefficients(shape))
        else:
            e = r.call(F["square"], tin("c", shape, flags="+"), O.vneg(tin("a", shape, T=-2, flags="+")), tin("s", shape, T=1, Y=-1), O.vneg(tin("d", shape, Y=-2, flags="+")))
        for k, (meth, vs) in enumerate(todo):
            names = [v if isinstance(v, str) else v[0] for v in vs]
            f = F[f"case{k}"]
            kw = {a.arg: tin(a.arg, shape, T=a.arg[0] == "x", Y=a.arg[0] == "y") for a in f.fns[0].node.args.args[1:]}
            tag = f"{form} {meth} over {', '.join(v if isinstance(v, str) else f'{v[0]} ({v[1]})' for v in vs)} {shape or ''}"
            where = where_of(prog, "ExpPoly", meth)
            R.anchor("integrals")
            try:
                v = L.asv(I, st, r.call(f, e, **kw))
            except AbsRaise as ex:
                R.open(tag, f"raises {ex.name}")
                continue
            for x, base in (("x", "T"), ("y", "Y")):
                R.unit(f"{tag}: power of {x}", v, base, int(x in names), f"{where}: the integral over {' and '.join(names)}")
            R.shape(f"{tag}: shape", v, shape, f"{where}: the integral over {' and '.join(names)} has the shape of the coefficients")
            first = results.setdefault((form, meth, tuple(sorted(map(str, vs)))), (tag, v))
            if first[1] is not v:
                R.anchor("orders")
                if v.nf is None or first[1].nf is None:
                    R.open(f"{tag}: order", "no normal form")
                else:
                    R.check(f"{tag}: order", nfeval.same(v.nf, first[1].nf), f"{where}: the integral depends on the order in which {' and '.join(names)} are named")
    R.absorb(I)


def jobs(prop):
    def f(tier):
        parts = 8
        return [("c_jac", "jacobian", (prop, shape, k, parts)) for shape in ((), (n,), (n, n_k)) for k in range(parts)]
    return f
