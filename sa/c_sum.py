"""Summaries of samples (C19): which order statistics the fields of a summary are, of which values,
over which axis, and after which transform.

A quantile with a constant level is a symbol of its own that remembers the level, axis and
operand. As quantiles commute with increasing functions, replacing the symbol by an element of the
operand in the value of a field must give the transform of the samples.
"""
from .pipe import *
from .report import where_of
from .client import client
from .c_pipe import run_pipe
from . import lib as L

SRC = '''
from gpcm.util import summarise_samples


def linear(x, s):
    return summarise_samples(x, s)


def decibel(x, s):
    return summarise_samples(x, s, db=True)


def linear_keyword(x, s):
    return summarise_samples(x, samples=s, db=False)
'''

BANDS = {68: (0.675, 0.685), 95: (0.945, 0.9551), 99: (0.98999, 1.0)}
m_, k_ = N.sym("m", 0, "+"), N.sym("k", 0, "+")


def replace(x, a, y):
    """Replace an atom without labels of its own, at any depth."""
    out = NF()
    for m, c in x.t.items():
        z = N.const(c)
        for b, e in m:
            if b[0] == "s" and b[1] == a:
                w = y
            elif b[0] == "p":
                w = replace(b[1], a, y)
            elif b[0] == "f" and not b[3]:
                w = N.fn(b[1], *[replace(q, a, y) if isinstance(q, NF) else q for q in b[2]])
            else:
                w = N.from_mono(1, [(b, N.Fraction(1))])
            z = z * (w.pow(e) if e != 1 else w)
        out = out + z
    return out


def order_stat(I, v):
    """The order statistic that a value is a function of: its name and record, if it is one."""
    if v.nf is None:
        return None
    ks = [a[1] for a in v.nf.atoms() if a[0] == "s" and a[1] in I.stats]
    return (ks[0], I.stats[ks[0]]) if len(set(ks)) == 1 else None


def moment_based(I, v):
    """Whether a value depends on samples through their means and deviations only."""
    if v.nf is None:
        return False
    some = False
    for a in v.nf.atoms():
        if a[0] == "s" and a[1] in I.stats:
            if I.stats[a[1]]["name"] not in ("std", "var", "mean"):
                return False
            some = True
        elif a[0] == "s" and a[1] == "samples":
            if not any(isinstance(i, tuple) for i in a[2]):
                return False  # Not averaged.
            some = True
        elif not (a[0] == "s" and a[1] in ("m", "k") or a[0] == "p" or a[0] == "f" and a[1] in ("log", "exp")):
            return False
    return some


def fields(I, st, v):
    """The fields of a summary."""
    out = {}
    for f in ("x", "mean", "var", "samples", "all_samples") + tuple(f"err_{k}_{s}" for k in BANDS for s in ("lower", "upper")):
        try:
            q = I.getattr(v, f, st, None)
            out[f] = q if isinstance(q, V) else None
        except Exception:
            out[f] = None
    return out


def agree(*xs):
    return False if False in xs else None if None in xs else True


def pair(a, b, mass):
    """Levels of a lower and an upper bound."""
    if a is None or b is None:
        return None, None, None
    return (abs(a + b - 1) < 1e-6, a < b, mass is None or mass[0] <= b - a <= mass[1])


def summary(R, prop, names):
    for nm in names:
        r = Run(Program(), cfg={"parts": True})
        I, st = r.I, r.st
        where = find_fn(I.prog, "summarise_samples")[0].where
        F = client(I.prog, SRC)
        x, s = tin("x", (k_,)), tin("samples", (m_, k_), flags="+")
        try:
            v = r.call(F[nm], x, s)
        except AbsRaise as e:
            R.open(nm, f"raises {e.name}")
            continue
        fs = fields(I, st, v)
        db = "decibel" in nm
        T = (lambda z: O.vdiv(O.vmul(num(10), O.vfun("log", z)), O.vfun("log", num(10)))) if db else (lambda z: z)
        want = T(s)
        levels = {}
        for f, q in fs.items():
            if not f.startswith("err_"):
                continue
            key = f"{nm}, {f}"
            o = order_stat(I, q) if q is not None else None
            if o is None or o[1]["level"] is None or not isinstance(o[1]["axis"], list):
                part = sorted(t[5:] for t in q.tags if t.startswith("part:")) if q is not None else ()
                if part:
                    R.bad(key, f"{part[0]}: {f} is taken over a fixed number of the samples only")
                elif q is not None and moment_based(I, q):
                    R.bad(key, f"{where}: {f} is a function of means and deviations of the samples, which fixes no fraction of them: {str(q.nf)[:120]}")
                else:
                    R.open(key, "not a known order statistic")
                continue
            R.anchor("bounds")
            a, d = o
            op = d["operand"]
            if not isinstance(op.sh, tuple):
                R.open(key, "statistic of a value of unknown shape")
                continue
            rank = len(op.sh)
            R.check(f"{key}, axis", [z % rank for z in d["axis"]] == [0] and q.sh == (k_,) if op.sh == s.sh else None, f"{where}: {f} is not taken over the samples for each input separately")
            R.check(f"{key}, values", nfeval.same(safe(lambda z: replace(z, a, op.nf), q.nf), want.nf) if op.nf is not None else None, f"{where}: {f} is not a bound of the {'samples in decibels' if db else 'samples'}")
            levels[f] = d["level"]
        for k, mass in BANDS.items():
            lo, hi = levels.get(f"err_{k}_lower"), levels.get(f"err_{k}_upper")
            c, o, w = pair(lo, hi, mass)
            R.check(f"{nm}, {k} percent band is central", c, f"{where}: the {k} percent band is not central: its bounds have levels {lo} and {hi}")
            R.check(f"{nm}, {k} percent band is ordered", o, f"{where}: the lower bound of the {k} percent band has level {lo}, and the upper bound has level {hi}")
            R.check(f"{nm}, {k} percent band has its mass", w, f"{where}: the {k} percent band contains {hi - lo if w is not None else 0:.4f} of the samples")
        for k1, k2 in ((68, 95), (95, 99)):
            q = [levels.get(f"err_{k}_{s_}") for k in (k1, k2) for s_ in ("lower", "upper")]
            R.check(f"{nm}, {k1} percent in {k2} percent", None if None in q else q[2] <= q[0] and q[1] <= q[3], f"{where}: the {k2} percent band does not contain the {k1} percent band")
        q = fs["mean"]
        refs = [T(O.vsum(s, [0], mean=True)), O.vsum(T(s), [0], mean=True)]
        R.check(f"{nm}, mean", agree_any([nfeval.same(q.nf, z.nf) for z in refs]) if q is not None and q.nf is not None else None, f"{where}: mean is not the mean over the samples for each input")
        q = fs["x"]
        R.check(f"{nm}, inputs", nfeval.same(q.nf, x.nf) if q is not None and q.nf is not None else None, f"{where}: x is not the inputs")
        q = fs["all_samples"]
        R.check(f"{nm}, all samples", nfeval.same(q.nf, O.transpose(want, (1, 0)).nf) if q is not None and q.nf is not None else None, f"{where}: all_samples are not the samples, transposed")
        for f, o in (("var", "std"),):
            q = fs[f]
            ks = [I.stats[a[1]] for a in q.nf.atoms() if a[0] == "s" and a[1] in I.stats] if q is not None and q.nf is not None else []
            R.check(f"{nm}, {f}", all(isinstance(d["axis"], list) and [z % 2 for z in d["axis"]] == [0] for d in ks) and q.sh == (k_,) if ks and all(d["operand"].sh == s.sh for d in ks) else None, f"{where}: {f} is not taken over the samples for each input separately")
        R.absorb(I)


def agree_any(xs):
    return True if True in xs else None if None in xs else False


def models(R, prop, model, scheme):
    """The bands of the predictions of a model."""
    p = Pipe(Program(), model, scheme, "explicit", True, {"statatoms": True})
    I, st = p.I, p.st
    ns = V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym("num", 0, "+"))
    n_f = N.sym("n_f", 0, "+")
    spectrum = Tup([tin("freqs", (n_f,), T=-1), tin("spectrum", (n_f,), T=1, Y=2, flags="+")])
    I.hooks[find_fn(I.prog, "estimate_psd")[0].where] = lambda *_: spectrum
    p.op("fit", p.m, "fit", p.t, p.y)
    post = p.op("condition", p.m, "condition", p.t, p.y)
    for nm, at in (("predict_kernel", [p.tk]), ("predict_psd", [p.tk]), ("predict_filter", [p.tk])):
        where = where_of(I.prog, model, nm)
        for kw in ({}, {"num_samples": ns}) + (({"min_phase": num(False)},) if nm == "predict_filter" else ()):
            tag = f"{model} {scheme} {nm}({', '.join(kw)})"
            v = p.op(tag, post, nm, *at, **kw)
            if v is None:
                R.open(tag, p.raised.get(tag) or "no result")
                continue
            fs = fields(I, st, v)
            x = fs["x"]
            lv = {}
            for f, q in fs.items():
                if not f.startswith("err_"):
                    continue
                o = order_stat(I, q) if q is not None else None
                if o is None or not isinstance(o[1]["level"], float) or not isinstance(o[1]["axis"], list):
                    R.open(f"{tag} {f}", "not a known order statistic")
                    continue
                d = o[1]
                lv[f] = d["level"]
                op = d["operand"]
                R.anchor("bounds")
                ok = None
                if O.known(op) and len(op.sh) == 2 and x is not None and O.known(x) and len(x.sh) == 1 and not unknown_dim(x.sh[0]):
                    if not unknown_dim(op.sh[1]):
                        ok = [z % 2 for z in d["axis"]] == [0] and op.sh[1] == x.sh[0] and q.sh == x.sh
                    if unknown_dim(op.sh[1]) and op.sh[0] == x.sh[0]:
                        ok = False if [z % 2 for z in d["axis"]] == [0] else None
                R.check(f"{tag} {f}, axis", ok, f"{where}: {f} is not taken over the samples for each input separately")
            for k, mass in BANDS.items():
                lo, hi = lv.get(f"err_{k}_lower"), lv.get(f"err_{k}_upper")
                c, o, w = pair(lo, hi, mass)
                R.check(f"{tag}, {k} percent band", agree(c, o, w), f"{where}: the {k} percent band is between the levels {lo} and {hi}")
    R.absorb(I)


def jobs(prop):
    def f(tier):
        return [("c_sum", "summary", (prop, (nm,))) for nm in ("linear", "decibel", "linear_keyword")] + [("c_sum", "models", (prop, m, s)) for m in MODELS for s in SCHEMES]
    return f
