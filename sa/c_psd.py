"""Spectral estimates (C20): the order of frequencies, which value belongs to which frequency, and
the scale.

Vectors are normal forms over symbols. Elementwise functions commute with rearranging a vector, so
a rearranged or selected vector is the same expression in rearranged symbols, and every symbol
remembers how it was rearranged. The order is decided on this history.
"""
from .pipe import *
from .report import where_of
from .client import client
from . import lib as L

SRC = '''
from gpcm.util import estimate_psd


def default(t, k, m):
    return estimate_psd(t, k)


def padded(t, k, m):
    return estimate_psd(t, k, n_zero=m)


def decibel(t, k, m):
    return estimate_psd(t, k, db=True)


def padded_decibel(t, k, m):
    return estimate_psd(t, k, m, True)


def explicit(t, k, m):
    return estimate_psd(t=t, k=k, n_zero=0, db=False)
'''

FREQ = {"fftfreq[": "fft", "rfftfreq[": "rfft", "fft(": "fft", "rfft(": "rfft"}


def spectral(nf):
    """The spectral symbols of an expression, without those in the histories of others."""
    out = set()
    for a in nf.atoms():
        if a[0] == "s" and isinstance(a[1], str):
            base, _ = O.rearranged(a[1])
            if base.startswith(tuple(FREQ)):
                out.add(a[1])
    return out


def sign(x):
    """Sign of a normal form whose symbols have signs."""
    if not x.t:
        return 0
    s = {(1 if c > 0 else -1) if all(N.positive(a) or e % 2 == 0 for a, e in m) else None for m, c in x.t.items()}
    return s.pop() if len(s) == 1 else None


def even(d):
    """Is a size even?"""
    if all(c.denominator == 1 and c % 2 == 0 for c in d.t.values()):
        return True
    c = d.t.get((), 0)
    return False if c % 2 == 1 and all(z.denominator == 1 and z % 2 == 0 for m, z in d.t.items() if m) else None


def order(name):
    """Order of a spectral symbol: a pair of the order and of whether negative frequencies have
    been left out. The orders are `natural`, `increasing`, `decreasing`, `mixed` and `None`."""
    base, h = O.rearranged(name)
    kind = next(v for k, v in FREQ.items() if base.startswith(k))
    d = N.DIMS[base][0]
    o, nn = ("increasing", True) if kind == "rfft" else ("natural", False)
    cut = d
    for how, by in h:
        if o is None:
            return None, None
        if how in ("fftshift", "ifftshift"):
            ev = True if how == "fftshift" else even(d)
            if cut is not d or nn:
                o = "mixed"
            elif o == "natural":
                o = "increasing" if ev else "mixed" if ev is False else None
            elif o == "increasing":
                ev = even(d) if how == "fftshift" else True
                o = "natural" if ev else "mixed" if ev is False else None
            else:
                o = None
        elif how == "reverse":
            o = {"increasing": "decreasing", "decreasing": "increasing"}.get(o, None)
        elif how == "select":
            m = by.nf
            if m is None or len(m.t) != 1:
                return None, None
            (mm, c), = m.t.items()
            if c != 1 or len(mm) != 1 or mm[0][0][0] != "f" or mm[0][0][1] not in ("ge0", "gt0"):
                return None, None
            x = mm[0][0][2][0]
            q = spectral(x)
            if len(q) != 1 or len(x.t) != 1:
                return None, None
            (xm, xc), = x.t.items()
            q = q.pop()
            rest = [(a, e) for a, e in xm if a[1] != q]
            oq = order(q)
            if nn or oq[1] or None in oq or not all(N.positive(a) for a, _ in rest) or not any(a[1] == q and e == 1 for a, e in xm):
                return None, None
            if oq != (o, nn):
                return "mixed", "some"  # Selected by the signs of frequencies in another order.
            o, nn, cut = ("increasing" if o == "natural" and xc > 0 else "mixed" if o == "natural" else o), True if xc > 0 else "negative", None
        elif how == "index":
            m = by.nf
            k = [a for a in m.atoms() if a[0] == "s" and isinstance(a[1], str) and a[1].startswith("argsort(")] if m is not None else []
            if len(k) != 1 or m != N.from_mono(1, [(k[0], N.Fraction(1))]) or O.SORTS.get(k[0][1]) is None:
                return None, None
            x = O.SORTS[k[0][1]]
            q = spectral(x)
            if len(q) != 1 or len(x.t) != 1 or order(list(q)[0]) != (o, nn) or sign(N.NF({tuple((a, e) for a, e in m_ if a[1] not in q): c for m_, c in x.t.items()})) != 1:
                return None, None
            o = "increasing"
        elif how == "slice":
            a, b = by
            if cut is None or nn:
                return None, None
            if o == "increasing" and even(d) and a == d.scale(N.Fraction(1, 2)) and b == d:
                nn, cut = True, None
            elif o == "natural" and even(d) and not a.t and b == d.scale(N.Fraction(1, 2)):
                o, nn, cut = "increasing", True, None
            elif o in ("increasing", "natural") and not a.t and any(N.DIMS.get(q) == (b,) and w_[1] == "select" for q, w_ in O.WRAPS.items()):
                # As many as there are selected frequencies, from the start.
                o, nn, cut = ("increasing", "low", None) if o == "increasing" else (None, None, None)
                if o is None:
                    return None, None
            else:
                return None, None
        else:
            return None, None
    return o, nn


def one(v):
    """The single spectral symbol of a value."""
    s = spectral(v.nf) if isinstance(v, V) and v.nf is not None else ()
    if len(s) > 1:
        # Sums over frequencies and single frequencies only scale it.
        s = {a[1] for a in v.nf.atoms() if a[0] == "s" and a[1] in s and a[2] == (-1,)}
    return list(s)[0] if len(s) == 1 else None


def decide(I, v):
    """Outcomes of comparisons of values with known signs."""
    x = v.nf
    if v.sh != () or x is None or len(x.t) != 1:
        return None
    (m, c), = x.t.items()
    if c != 1 or len(m) != 1 or m[0][0][0] != "f" or m[0][0][1] not in ("ne0", "eq0", "gt0", "ge0"):
        return None
    s = sign(m[0][0][2][0])
    if s is None:
        return None
    return {"ne0": s != 0, "eq0": s == 0, "gt0": s > 0, "ge0": s >= 0}[m[0][0][1]]


def estimate(R, prop, names):
    dt, t0 = tin("dt", (), T=1, flags="+"), tin("t0", (), T=1, flags="+")
    i = O.atom(f"range[{n}]", (n,))
    k, m = tin("k", (n,), Y=2), V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym("m", 0, "+"))
    grid = O.vmul(i, dt).but(ty=None)
    k0 = O.take_label(k, 0, "@0")
    for nm in names:
        # Inputs that do not start at zero.
        for tag, off in (("after zero", t0), ("before zero", O.vneg(t0)), ("one step after zero", dt)):
            r = Run(Program(), cfg={"spectra": True, "decide": decide})
            F = client(r.I.prog, SRC)
            where = find_fn(r.I.prog, "estimate_psd")[0].where
            r.I.udec = 0
            try:
                r.call(F[nm], O.vadd(grid, off), k, m)
                ok = None if any(e["kind"] in ("raise", "may_raise") for e in r.I.events) else False
            except AbsRaise as e:
                ok = True if e.name != "$bottom" else None
            R.check(f"{nm}: inputs that start {tag}", ok, f"{where}: inputs that start {tag} are not rejected")
            R.absorb(r.I)
        r = Run(Program(), cfg={"spectra": True, "decide": decide})
        F = client(r.I.prog, SRC)
        I = r.I
        try:
            v = r.call(F[nm], grid, k, m)
        except AbsRaise as e:
            if e.name == "$bottom":
                R.open(nm, "does not return")
            else:
                R.bad(f"{nm}: inputs that start at zero", f"{where}: inputs that start at zero are rejected with {e.name}")
            continue
        if not (isinstance(v, Tup) and len(v.items) == 2):
            R.open(nm, "unexpected result")
            continue
        f, p = [L.asv(I, r.st, x) for x in v.items]
        a, b = one(f), one(p)
        R.anchor("estimates")
        if a is None or b is None:
            R.open(f"{nm}: order", "unknown frequencies or values")
            continue
        (o1, n1), (o2, n2) = order(a), order(b)
        R.check(f"{nm}: increasing", None if o1 is None else o1 == "increasing", f"{where}: the frequencies that are returned are not in increasing order: {hist(a)}")
        R.check(f"{nm}: non-negative", None if o1 is None else n1 is True, f"{where}: the frequencies that are returned are not all non-negative: {hist(a)}")
        ba, bb = O.rearranged(a)[0], O.rearranged(b)[0]
        R.check(f"{nm}: transforms", (FREQ_of(ba) == FREQ_of(bb) and N.DIMS[ba] == N.DIMS[bb]) if not any(unknown_dim(z) for z in N.DIMS[ba] + N.DIMS[bb]) else None, f"{where}: the frequencies are not those of the transform")
        same_h = [(q, by if by is None or isinstance(by, tuple) else by.nf) for q, by in O.rearranged(a)[1]] == [(q, by if by is None or isinstance(by, tuple) else by.nf) for q, by in O.rearranged(b)[1]]
        R.check(f"{nm}: paired", True if same_h else None if o1 is None or o2 is None else (o1, n1) == (o2, n2), f"{where}: the values are not in the order of the frequencies: {hist(b)} against {hist(a)}")
        fa = N.from_mono(1, [(("s", ba, (-1,), ""), N.Fraction(1))])
        R.check(f"{nm}: spacing", nfeval.same(safe(lambda x, y: O.restore(x) * y, f.nf, dt.nf), fa), f"{where}: the frequencies are not the frequencies of the transform divided by the spacing")
        # Scale.
        evs = [e for e in I.events if e["kind"] == "trapz"]
        if len(evs) != 1:
            R.open(f"{nm}: scale", "not one integral")
            continue
        e = evs[0]
        x, y = e["x"], e["y"]
        c, d = one(x) if x is not None else None, one(y)
        if c is None or d is None:
            R.open(f"{nm}: scale", "unknown integral")
            continue
        (o3, n3), (o4, n4) = order(c), order(d)
        R.check(f"{nm}: integral over increasing frequencies", None if o3 is None else o3 == "increasing", f"{where}: the integral is over frequencies that are not in increasing order: {hist(c)}")
        hc, hd = O.rearranged(c)[1], O.rearranged(d)[1]
        R.check(f"{nm}: integral over pairs", True if [q for q, by in hc] == [q for q, by in hd] and o3 == o4 else None if o3 is None or o4 is None else (o3, n3) == (o4, n4), f"{where}: the integral is over values that are not in the order of the frequencies: {hist(d)} against {hist(c)}")
        full = None if n3 is None else n3 is False
        if any(a[0] == "f" and a[1] == "log" and spectral(a[2][0]) for a in y.nf.atoms()):
            R.bad(f"{nm}: integral of the spectrum", f"{where}: the integral that normalises is over logarithms of the spectrum")
            continue
        s = N.sym(e["name"], 0, "")
        want = safe(lambda y_, k_: O.restore(y_) * k_ * s.pow(-1), y.nf, k0.nf)
        if "decibel" in nm and want is not None:
            want = O.vdiv(O.vmul(num(10), O.vfun("log", V(u=U1, lo=(), sh=(n,), nf=want, w=Z))), O.vfun("log", num(10))).nf
        got = safe(O.restore, p.nf)
        ok = nfeval.same(got, want) if got is not None and want is not None else None
        xs = nfeval.same(safe(O.restore, x.nf), safe(O.restore, f.nf))
        R.check(f"{nm}: scale", True if ok and full and xs else None if ok is None or full is None or xs is None else None if FREQ_of(bb) == "rfft" and not ok else False, f"{where}: the integral of the estimate over all frequencies is not the kernel at lag zero")
        R.absorb(I)


def models(R, prop, model, scheme):
    """Which spectra the predictions of a model consist of."""
    from .c_sum import fields, order_stat
    p = Pipe(Program(), model, scheme, "explicit", True, {"statatoms": True})
    I, st = p.I, p.st
    n_f = N.sym("n_f", 0, "+")
    f, s = tin("freqs", (n_f,), T=-1), tin("spectrum", (n_f,), T=1, Y=2, flags="+")
    log = []

    def hook(I, st, fn, args, kw, node):
        a = dict(zip(("t", "k", "n_zero", "db"), args), **kw)
        log.append(a)
        return Tup([f, s])

    I.hooks[find_fn(I.prog, "estimate_psd")[0].where] = hook
    p.op("fit", p.m, "fit", p.t, p.y)
    post = p.op("condition", p.m, "condition", p.t, p.y)
    where = where_of(I.prog, model, "predict_psd")
    for tag, obj, args in (("given inputs", post, [p.tk]), ("default inputs", post, []), ("prior", p.m, [p.tk])):
        log.clear()
        tag = f"{model} {scheme}, spectrum at {tag}"
        v = p.op(tag, obj, "predict_psd", *args)
        if v is None or not log:
            R.open(tag, p.raised.get(tag) or "no estimate")
            continue
        R.anchor("predictions")
        for j, a in enumerate(log):
            t, k = (L.asv(I, st, a[q]) if q in a else None for q in ("t", "k"))
            if t is None or k is None or t.nf is None:
                R.open(f"{tag}: estimate {j}", "unknown arguments")
                continue
            R.check(f"{tag}: estimate {j}, inputs and values", None if not O.known(t) or not O.known(k) or any(unknown_dim(z) for z in k.sh) else k.sh == t.sh, f"{where}: a spectrum is estimated from values at other inputs")
            if args:
                R.check(f"{tag}: estimate {j}, inputs", nfeval.same(t.nf, p.tk.nf), f"{where}: a spectrum is estimated at other inputs than those of the kernel")
            else:
                z = O.take_label(t, 0, "@0") if O.known(t) else None
                R.check(f"{tag}: estimate {j}, inputs start at zero", nfeval.same(z.nf, NF()) if z is not None and z.nf is not None else None, f"{where}: the default inputs do not start at zero, and are rejected")
        fs = fields(I, st, v)
        x = fs["x"]
        R.check(f"{tag}: frequencies", False if x is not None and O.known(x) and x.sh != f.sh and not any(map(unknown_dim, x.sh)) else nfeval.same(x.nf, f.nf) if x is not None and x.nf is not None else None, f"{where}: the frequencies are not those of the spectra")
        o = order_stat(I, fs["err_95_upper"]) if fs["err_95_upper"] is not None else None
        q = o[1]["operand"] if o else None
        R.check(f"{tag}: spectra", None if q is None or not O.known(q) or q.nf is None or n_f not in q.sh else nfeval.same(q.nf, s.nf), f"{where}: the values are not those of the spectra")
    R.absorb(I)


def FREQ_of(base):
    return next(v for k, v in FREQ.items() if base.startswith(k))


def hist(a):
    base, h = O.rearranged(a)
    return " > ".join([FREQ_of(base)] + [q for q, _ in h])


def jobs(prop):
    def f(tier):
        return [("c_psd", "estimate", (prop, (nm,))) for nm in ("default", "padded", "decibel", "padded_decibel", "explicit")] + [("c_psd", "models", (prop, m, s)) for m in MODELS for s in SCHEMES]
    return f
