"""Transforms in the frequency domain and of eigenvalues (C34, C35).

The operations of a transform are recorded as a graph of terms, over which two small abstract
domains are evaluated: spectra, as linear combinations of the log-magnitude and the phase of the
input and their Hilbert transforms; and matrices, as functions of the eigenvalues of a symmetric
matrix."""
import numpy as np

from .pipe import *
from .report import where_of
from .c_pipe import find_fn, comps
from .interp import Fn
from . import lib as L


class Unknown(Exception):
    pass


class Terms:
    """Evaluation of a graph of terms over a domain."""

    def __init__(self, domain, inputs):
        self.t = L.terms()
        self.d = domain
        self.memo = dict(inputs)

    def __call__(self, i):
        if i not in self.memo:
            k = self.t.get(i)
            if k is None:
                raise Unknown(str(i))
            self.memo[i] = self.d(self, *k)
        return self.memo[i]

    def const(self, i):
        k = self.t.get(i)
        if k is not None and k[0] == "c":
            try:
                return eval(k[1], {"__builtins__": {}}, {"inf": np.inf, "nan": np.nan})
            except Exception:
                return None
        if k is not None and k[0] in ("neg", "USub"):
            c = self.const(k[1])
            return -c if c is not None else None
        return None

    def split(self, args):
        pos, kw = [], {}
        for a in args:
            if isinstance(a, tuple):
                kw[a[0]] = a[1]
            else:
                pos.append(a)
        return pos, kw


SAME = {"B.to_numpy", "np.array", "np.asarray", "B.dense", "np.copy", "B.cast", "B.flatten", "np.ravel", "np.asfortranarray", "np.ascontiguousarray"}


# -- spectra
class Lin(dict):
    """Linear combination of real functions of frequency: `L`, the log-magnitude of the input,
    `A`, its phase, and their Hilbert transforms `HL` and `HA`."""

    def add(self, o, c=1):
        r = Lin(self)
        for k, v in o.items():
            r[k] = r.get(k, 0) + c * v
        return Lin({k: v for k, v in r.items() if abs(v) > 1e-12})

    def times(self, c):
        return Lin({k: v * c for k, v in self.items() if abs(v * c) > 1e-12})


EVEN, ODD = {"L", "HA", "1"}, {"A", "HL"}


class Spec:
    """`cart`: a function with a real and an imaginary part. `polar`: one with a log-magnitude and a
    phase. `time`: the signal with the given spectrum. `half`: on the non-negative frequencies."""

    def __init__(self, kind, x, y, half=False, whole=True):
        self.kind, self.x, self.y, self.half, self.whole = kind, x, y, half, whole


def hermitian(s):
    return set(s.x) <= EVEN and set(s.y) <= ODD


def spectra(T, op, *args):
    pos, kw = T.split(args)
    name = op.split(".")[-1]
    lin = lambda: Spec("cart", Lin(), Lin())
    c0 = T.const(pos[0]) if pos else None
    if op == "c":
        v = eval(args[0], {"__builtins__": {}}, {"inf": np.inf, "nan": np.nan})
        if isinstance(v, (int, float, complex)):
            v = complex(v)
            return Spec("cart", Lin({"1": v.real} if v.real else {}), Lin({"1": v.imag} if v.imag else {}))
        raise Unknown(repr(v))
    if op in SAME:
        return T(pos[0])
    if op == "B.reshape" or op == "index":
        raise Unknown(op)
    if op in ("Add", "Sub"):
        a, b = T(pos[0]), T(pos[1])
        if a.kind == b.kind == "cart" and a.half == b.half or a.kind == b.kind == "cart" and (set(a.x) | set(a.y) <= {"1"} or set(b.x) | set(b.y) <= {"1"}):
            s = 1 if op == "Add" else -1
            return Spec("cart", a.x.add(b.x, s), a.y.add(b.y, s), a.half or b.half)
        raise Unknown(op)
    if op in ("neg", "USub"):
        a = T(pos[0])
        if a.kind == "cart":
            return Spec("cart", a.x.times(-1), a.y.times(-1), a.half)
        raise Unknown(op)
    if op in ("Mult", "Div") or name in ("multiply", "divide"):
        div = op == "Div" or name == "divide"
        a, b = T(pos[0]), T(pos[1])
        for p, q, sw in ((a, b, False), (b, a, True)):
            # By a constant.
            if q.kind == "cart" and set(q.x) | set(q.y) <= {"1"} and not (div and sw):
                z = complex(q.x.get("1", 0), q.y.get("1", 0))
                if z == 0:
                    raise Unknown("zero")
                z = 1 / z if div else z
                if p.kind == "cart":
                    return Spec("cart", p.x.times(z.real).add(p.y.times(-z.imag)), p.x.times(z.imag).add(p.y.times(z.real)), p.half)
                if p.kind in ("polar", "time") and z.imag == 0 and z.real > 0:
                    return Spec(p.kind, p.x.add(Lin({"1": np.log(z.real)} if z.real != 1 else {})), p.y, p.half, p.whole)
        if a.kind == b.kind == "polar" and a.half == b.half:
            s = -1 if div else 1
            return Spec("polar", a.x.add(b.x, s), a.y.add(b.y, s), a.half)
        raise Unknown(op)
    if op == "Pow" or name == "power":
        a, k = T(pos[0]), T.const(pos[1])
        if a.kind == "polar" and isinstance(k, (int, float)) and (k == int(k) or not a.y):
            return Spec("polar", a.x.times(k), a.y.times(k), a.half)
        raise Unknown(op)
    if name == "sqrt":
        a = T(pos[0])
        if a.kind == "polar" and not a.y:
            return Spec("polar", a.x.times(0.5), a.y, a.half)
    if name in ("fft", "rfft"):
        a = T(pos[0])
        if kw or len(pos) > 1:
            raise Unknown("options of the transform")
        half = name == "rfft"
        if a.kind == "time" and a.whole and not a.half:
            return Spec("polar", a.x, a.y, half)
        raise Unknown(op)
    if name in ("ifft", "irfft"):
        a = T(pos[0])
        if name == "irfft":
            # The length is that of the input only if it is given, or even.
            raise Unknown("length")
        if kw or len(pos) > 1:
            raise Unknown("options of the transform")
        if a.kind == "polar" and not a.half:
            return Spec("time", a.x, a.y, whole=True)
        raise Unknown(op)
    if name == "real":
        a = T(pos[0])
        if a.kind == "time":
            # The imaginary part vanishes if the spectrum is Hermitian.
            return Spec("time", a.x, a.y, whole=hermitian(a))
        if a.kind == "cart":
            return Spec("cart", a.x, Lin(), a.half)
        if a.kind == "polar" and not a.y:
            return a
    if name == "imag":
        a = T(pos[0])
        if a.kind == "cart":
            return Spec("cart", a.y, Lin(), a.half)
    if name in ("conj", "conjugate"):
        a = T(pos[0])
        if a.kind in ("cart", "polar"):
            return Spec(a.kind, a.x, a.y.times(-1), a.half)
    if name in ("abs", "absolute"):
        a = T(pos[0])
        if a.kind == "polar":
            return Spec("polar", a.x, Lin(), a.half)
    if name in ("angle", "unwrap"):
        a = T(pos[0])
        if name == "angle" and a.kind == "polar" and (not a.y or a.y == {"A": 1}) and not kw and len(pos) == 1:
            return Spec("cart", a.y, Lin(), a.half)
    if name == "log":
        a = T(pos[0])
        if a.kind == "polar" and (not a.y or a.y == {"A": 1}):
            return Spec("cart", a.x, a.y, a.half)
    if name in ("log10", "log2"):
        a = T(pos[0])
        if a.kind == "polar" and not a.y:
            return Spec("cart", a.x.times(1 / np.log(10 if name == "log10" else 2)), a.y, a.half)
    if name == "exp":
        a = T(pos[0])
        if a.kind == "cart":
            return Spec("polar", a.x, a.y, a.half)
    if name == "hilbert":
        a = T(pos[0])
        if kw or len(pos) > 1:
            raise Unknown("options of the transform")
        if a.kind == "cart" and not a.y:
            pre = "half-" if a.half else ""
            out = Lin()
            for k, v in a.x.items():
                if k == "1":
                    continue
                if k in ("L", "A"):
                    out = out.add(Lin({pre + "H" + k: v}))
                elif k in ("HL", "HA"):
                    out = out.add(Lin({k[1:]: -v, "mean " + k[1:]: v}))
                else:
                    raise Unknown(k)
            return Spec("cart", a.x, out, a.half)
    raise Unknown(op)


def text(x):
    names = {"L": "log|H|", "A": "arg H", "HL": "Hilbert(log|H|)", "HA": "Hilbert(arg H)"}
    return " + ".join(f"{v:g} {names.get(k, k)}" for k, v in sorted(x.items())) or "0"


class Sampled:
    """Domain of signals of a fixed length, to confirm that a transform is not the one it should be."""

    FNS = {"abs", "absolute", "log", "log2", "log10", "exp", "real", "imag", "conj", "conjugate", "angle", "sqrt", "cos", "sin", "fft", "ifft", "rfft", "irfft", "hilbert", "maximum", "minimum", "sum", "mean", "max", "min", "multiply", "divide", "subtract", "add", "power", "square", "sign", "fftshift", "ifftshift", "flip", "roll", "unwrap", "negative"}
    OPS = {"Add": np.add, "Sub": np.subtract, "Mult": np.multiply, "Div": np.divide, "Pow": np.power}

    def __call__(self, T, op, *args):
        pos, kw = T.split(args)
        name = op.split(".")[-1]
        if op == "c":
            return eval(args[0], {"__builtins__": {}}, {"inf": np.inf, "nan": np.nan})
        if op in SAME:
            return T(pos[0])
        if op in ("neg", "USub"):
            return -T(pos[0])
        if op in ("builtins.len", "B.length"):
            return len(T(pos[0]))
        if op == "transpose":
            return np.transpose(T(pos[0]))
        if op in self.OPS and not kw:
            return self.OPS[op](*[T(i) for i in pos])
        if name in self.FNS:
            fn = hilbert if name == "hilbert" else getattr(np.fft, name, None) or getattr(np, name)
            return fn(*[T(i) for i in pos], **{k: T(v) for k, v in kw.items()})
        raise Unknown(op)

    @staticmethod
    def differs(h, v):
        """How the transformed filter differs from that with the same magnitude and minimum phase."""
        xs = [1.2, -0.7, 0.4, 0.9, -0.3, 0.15], [0.3, 1.1, -0.8, 0.25, 0.6, -0.45, 0.2]
        for scale, x in [(s, x) for s in (1, 1e-3, 1e3) for x in xs]:
            # Filters of any size.
            x = scale * np.array(x)
            with np.errstate(all="ignore"):
                try:
                    y = np.asarray(Terms(Sampled(), {h: x})(v))
                except Unknown:
                    return None
                except (ValueError, TypeError, IndexError):
                    return "could not be computed"
            spec = np.fft.fft(x)
            ref = np.abs(spec) * np.exp(-1j * np.imag(hilbert(np.log(np.abs(spec)))))
            if y.shape != x.shape:
                return f"has shape {y.shape} for a filter of shape {x.shape}"
            if not np.allclose(np.fft.fft(y), ref, atol=1e-6 * scale, rtol=1e-6):
                return "is not the filter with the same magnitude and minimum phase" if np.allclose(np.abs(np.fft.fft(y)), np.abs(ref), atol=1e-6 * scale) else "does not have a spectrum with the same magnitude"
        return ""


def hilbert(x, *args, **kw):
    """Analytic signal."""
    if args or kw or np.iscomplexobj(x) or np.ndim(x) != 1:
        raise Unknown("options of the transform")
    m = len(x)
    g = np.zeros(m)
    g[0] = 1
    g[1 : (m + 1) // 2] = 2
    if m % 2 == 0:
        g[m // 2] = 1
    return np.fft.ifft(np.fft.fft(x) * g)


def min_phase(R, prop):
    prog = Program()
    r = Run(prog, cfg=dict(optree=True))
    fn = find_fn(prog, "min_phase")
    h = tin("h", (n,))
    where = fn[0].where
    key = "spectrum of the transformed filter"
    v = L.asv(r.I, r.st, r.call(Fn(fn), h))
    R.anchor("transforms")
    R.absorb(r.I)
    h, v = L.idof(h), L.idof(v)
    try:
        s = Terms(spectra, {h: Spec("time", Lin({"L": 1}), Lin({"A": 1}))})(v)
        if s.kind != "time":
            raise Unknown(f"the result is not a signal: {s.kind}")
    except Unknown as e:
        d = Sampled.differs(h, v)
        if d:
            R.bad(key, f"{where}: the result {d}")
        else:
            R.open(key, f"unknown operation: {e}")
        return
    for k, ok, text_ in (
        ("magnitude of the transformed filter", s.x == {"L": 1}, f"the log-magnitude of the spectrum of the result is {text(s.x)}, not that of the given filter, log|H|"),
        ("phase of the transformed filter", s.y == {"HL": -1}, f"the phase of the spectrum of the result is {text(s.y)}, not that of the filter with the same magnitude and minimum phase, minus the Hilbert transform of log|H|"),
        ("the transformed filter is real", s.whole, f"takes the real part of a signal that is not real (log-magnitude {text(s.x)}, phase {text(s.y)}), which changes the magnitude of its spectrum"),
    ):
        if ok:
            R.ok(k)
        elif Sampled.differs(h, v) == "":
            R.open(k, "not decided")
        else:
            R.bad(k, f"{where}: {text_}")


def use(R, prop, model, scheme):
    """Filters are transformed if and only if that is asked for, one sample at a time."""
    p = Pipe(Program(), model, scheme, nf=True)
    p.op("fit", p.m, "fit", p.t, p.y)
    post = p.op("condition", p.m, "condition", p.t, p.y)
    fn = find_fn(p.I.prog, "min_phase")[0]
    seen = []

    def hook(I, st, f, args, kw, node):
        b = bind(f, args, kw)
        x = L.asv(I, st, next(iter(b["pos"].values()))) if not isinstance(b, str) else args[0]
        seen.append(x)
        return V(u=x.u, lo=x.lo, sh=x.sh, w=x.w, tags=x.tags | {"minphase"})

    p.I.hooks[fn.where] = hook
    where = where_of(p.I.prog, "Model", "predict_filter")
    for obj, kind in ((p.m, "prior"), (post, "posterior")):
        for given in (False, True):
            for flag in (None, True, False):
                kw = {} if flag is None else {"min_phase": num(flag)}
                args = [p.tk] if given else []
                key = f"{model} {scheme} {kind}: predict_filter({'t_h' if given else ''}), min_phase={'default' if flag is None else flag}"
                del seen[:]
                res = p.op(key, obj, "predict_filter", *args, **kw)
                d = dict(comps(p, res)) if res is not None else {}
                if "mean" not in d or not any("rnd" in t or t == "h" or t.startswith("grnd") for t in d["mean"].tags):
                    R.open(key, "unknown result")
                    continue
                R.anchor("predictions")
                want_ = flag is not False
                for c, x in d.items():
                    if c == "x":
                        continue
                    R.check(f"{key}: {c}", ("minphase" in x.tags) == want_, f"{where}: `{c}` of the prediction of the filter is {'not ' if want_ else ''}computed from filters of minimum phase with min_phase={'the default' if flag is None else flag} ({model}, {scheme})")
                for x in seen:
                    R.check(f"{key}: transformed once", "minphase" not in x.tags, f"{where}: a filter is transformed twice ({model}, {scheme})")
                    if O.known(x):
                        R.check(f"{key}: one filter at a time", len(x.sh) == 1, f"{where}: the transform receives an array of shape {shape_str(x.sh)}, but transforms one filter, a vector ({model}, {scheme})")
                x = d.get("x")
                if given and x is not None and x.nf is not None:
                    first = L.asv(p.I, p.st, L.getitem(p.I, p.st, p.tk, num(0), None))
                    ref = sub_(p.tk, first) if want_ else p.tk
                    R.same(f"{key}: times", x.nf, ref.nf, f"{where}: the times of the filter {'do not start at zero' if want_ else 'are not the given times'} with min_phase={'the default' if flag is None else flag} ({model}, {scheme})")
    R.absorb(p.I)


def sub_(a, b):
    return O.vadd(a, b, -1)


# -- functions of eigenvalues
class Sp:
    """An abstract linear-algebra value in terms of the eigenvalues `w` of the symmetric part of the
    input. `gen`: a combination of the input and its transpose. `sym`: the matrix with the
    eigenvectors of the input and eigenvalues `f`. `vec`: a vector with one element per eigenvalue.
    `row`, `colv`: the same with an axis inserted. `cols`: singular vectors `b` times a function.
    `num`: a scalar. Functions are arrays of values at the sampled eigenvalues."""

    def __init__(self, kind, f=None, b=None, rep=True, g=None):
        self.kind, self.f, self.b, self.rep, self.g = kind, f, b, rep, g

    def but(self, **kw):
        d = dict(kind=self.kind, f=self.f, b=self.b, rep=self.rep, g=self.g)
        d.update(kw)
        return Sp(**d)


class Spectral:
    """Domain for one choice of eigenvalues."""

    def __init__(self, w):
        self.w = np.asarray(w, float)

    def sym(self, x):
        """As a function of the symmetric part."""
        if x.kind == "sym":
            return x
        if x.kind == "gen" and abs(x.f[0] - x.f[1]) < 1e-12:
            return Sp("sym", (x.f[0] + x.f[1]) * self.w)
        raise Unknown("not symmetric")

    def __call__(self, T, op, *args):
        pos, kw = T.split(args)
        name = op.split(".")[-1]
        with np.errstate(all="ignore"):
            return self.op(T, op, name, pos, kw)

    def op(self, T, op, name, pos, kw):
        true = lambda k: k in kw and T.const(kw[k]) is True
        if op == "c":
            v = T.const_value
            raise Unknown("constant")
        if op in SAME:
            return T(pos[0])
        if op == "item":
            d = T(pos[1])
            if not isinstance(d, tuple):
                raise Unknown("item")
            return d[pos[0]]
        if name in ("transpose", "T"):
            x = T(pos[0])
            if x.kind == "gen":
                return x.but(f=(x.f[1], x.f[0]))
            if x.kind == "sym":
                return x
            if x.kind in ("cols", "rows"):
                return x.but(kind="rows" if x.kind == "cols" else "cols")
            raise Unknown(op)
        if op in ("neg", "USub"):
            return self.binary("Mult", self.num(-1.0), T(pos[0]))
        if op in ("Add", "Sub", "Mult", "Div", "Eq", "NotEq", "Gt", "GtE", "Lt", "LtE", "Pow") or name in ("maximum", "minimum", "add", "subtract", "multiply", "divide"):
            a, b = [self.arg(T, i) for i in pos[:2]]
            op = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div"}.get(name, op)
            return self.binary(name if name in ("maximum", "minimum") else op, a, b)
        if name == "where" and len(pos) == 3:
            c, a, b = [self.arg(T, i) for i in pos]
            if c.kind in ("vec", "num") and a.kind in ("vec", "num") and b.kind in ("vec", "num"):
                return self.merge([c, a, b], np.where(c.f, a.f, b.f))
            raise Unknown(op)
        if name in ("abs", "sqrt", "sign", "exp", "log", "clip") and len(pos) == 1 and not kw:
            x = self.arg(T, pos[0])
            if x.kind in ("vec", "num", "row") and name != "clip":
                return x.but(f=getattr(np, name)(x.f))
            if name == "abs" and x.kind in ("sym", "gen"):
                return Sp("absmat", self.radius(x))
            raise Unknown(op)
        if name == "relu":
            x = T(pos[0])
            if x.kind == "vec":
                return x.but(f=np.maximum(x.f, 0))
        if name in ("max", "sum", "norm", "trace", "mean", "min") and len(pos) == 1:
            x = T(pos[0])
            if x.kind == "vec" and not kw and name != "norm":
                return Sp("num", getattr(np, "sum" if name == "trace" else name)(x.f), rep=x.rep)
            if name == "sum" and x.kind == "squares" and not kw:
                return Sp("num", np.sum(x.f**2))
            if name == "norm" and not kw and x.kind in ("sym", "gen"):
                return Sp("num", np.sqrt(np.sum(self.sym(x).f ** 2)))
            if name == "sum" and x.kind == "absmat":
                # At least the spectral radius, in total and at most over an axis.
                return Sp("num", 2.3 * x.f) if not kw else Sp("absums", x.f)
            if name == "max" and x.kind == "absums":
                return Sp("num", 1.3 * x.f)
            if name == "trace" and x.kind == "sym":
                return Sp("num", np.sum(x.f))
            raise Unknown(op)
        if name in ("eye", "identity"):
            return Sp("sym", np.ones(len(self.w)))
        if name == "svd" and not kw:
            x = self.sym(T(pos[0]))
            # Singular vectors for equal singular values may be mixed.
            neg, posv = x.f < -1e-12, x.f > 1e-12
            return (Sp("cols", np.ones(len(self.w)), b="U", g=x.f), Sp("vec", np.abs(x.f)), Sp("cols" if op.startswith("B.") else "rows", np.ones(len(self.w)), b="V", g=x.f))
        if name == "eigh" and not kw:
            x = self.sym(T(pos[0]))
            return (Sp("vec", x.f), Sp("cols", np.ones(len(self.w)), b="Q", g=x.f))
        if name in ("expand_dims", "index"):
            return self.expand(T, op, pos, kw)
        if name in ("diag", "diagonal", "diag_extract"):
            x = T(pos[0])
            if x.kind == "overlap":
                return Sp("vec", x.f, rep=x.rep)
            if x.kind == "vec":
                return Sp("dmat", x.f, rep=x.rep)
            raise Unknown(op)
        if name in ("mm", "matmul", "dot", "MatMult"):
            a, b = T(pos[0]), T(pos[1])
            if true("tr_a") or true("adj_a"):
                a = self.tr(a)
            if true("tr_b") or true("adj_b"):
                b = self.tr(b)
            if true("tr_c") or len(pos) > 2:
                raise Unknown(op)
            return self.mm(a, b)
        if name in ("inv", "pinv", "pd_inv"):
            x = self.sym(T(pos[0]))
            return x.but(f=np.where(np.abs(x.f) < 1e-12, 0, 1 / x.f) if name == "pinv" else 1 / x.f)
        raise Unknown(op)

    def radius(self, x):
        return np.max(np.abs(self.sym(x).f)) if x.kind == "sym" or abs(x.f[0] - x.f[1]) < 1e-12 else np.max(np.abs(self.w))

    def tr(self, x):
        if x.kind == "gen":
            return x.but(f=(x.f[1], x.f[0]))
        if x.kind in ("cols", "rows"):
            return x.but(kind="rows" if x.kind == "cols" else "cols")
        if x.kind in ("sym", "dmat"):
            return x
        raise Unknown("transpose")

    def num(self, c):
        return Sp("num", float(c))

    def arg(self, T, i):
        c = T.const(i)
        if isinstance(c, (int, float, bool)):
            return self.num(c)
        return T(i)

    def merge(self, xs, f):
        rep = all(x.rep for x in xs)
        k = next((x for x in xs if x.kind != "num"), xs[0])
        return Sp(k.kind, f, rep=rep)

    def expand(self, T, op, pos, kw):
        x = T(pos[0])
        if x.kind != "vec":
            raise Unknown(op)
        if op == "index":
            k = T.t.get(pos[1])
            if k is None or k[0] != "tup":
                raise Unknown("index")
            es = [T.t.get(i) for i in k[1:]]
            none = [j for j, e in enumerate(es) if e == ("c", "None")]
            if len(es) != 2 or len(none) != 1:
                raise Unknown("index")
            return x.but(kind="row" if none[0] == 0 else "colv")
        ax = T.const(kw["axis"]) if "axis" in kw else T.const(pos[1]) if len(pos) > 1 else 0
        if ax not in (-2, -1, 0, 1):
            raise Unknown("axis")
        return x.but(kind="row" if ax in (-2, 0) else "colv")

    FN = {
        "Add": np.add, "Sub": np.subtract, "Mult": np.multiply, "Div": np.divide, "Eq": lambda a, b: np.abs(a - b) < 1e-12, "NotEq": lambda a, b: np.abs(a - b) >= 1e-12,
        "Gt": lambda a, b: a - b > 1e-12, "GtE": lambda a, b: a - b > -1e-12, "Lt": lambda a, b: b - a > 1e-12, "LtE": lambda a, b: b - a > -1e-12, "Pow": np.power, "maximum": np.maximum, "minimum": np.minimum,
    }

    def binary(self, op, a, b):
        f = self.FN[op]
        if a.kind in ("vec", "num") and b.kind in ("vec", "num"):
            return self.merge([a, b], f(a.f, b.f))
        if {a.kind, b.kind} <= {"row", "num"} or {a.kind, b.kind} <= {"colv", "num"}:
            return self.merge([a, b], f(a.f, b.f))
        if op in ("Add", "Sub"):
            s = 1 if op == "Add" else -1
            if a.kind == b.kind == "gen":
                return Sp("gen", (a.f[0] + s * b.f[0], a.f[1] + s * b.f[1]))
            if a.kind in ("sym", "gen") and b.kind in ("sym", "gen"):
                a, b = self.sym(a), self.sym(b)
                return Sp("sym", a.f + s * b.f, rep=a.rep and b.rep)
        if op in ("Mult", "Div"):
            for x, y, sw in ((a, b, False), (b, a, True)):
                if y.kind == "num" and not (sw and op == "Div"):
                    c = 1 / y.f if op == "Div" else y.f
                    if x.kind == "gen":
                        return x.but(f=(x.f[0] * c, x.f[1] * c), rep=x.rep and y.rep)
                    if x.kind in ("sym", "cols", "rows", "dmat"):
                        return x.but(f=x.f * c, rep=x.rep and y.rep)
                # Scaled singular vectors.
                if (x.kind, y.kind) in (("cols", "row"), ("rows", "colv")) and not (sw and op == "Div"):
                    return x.but(f=x.f / y.f if op == "Div" else x.f * y.f, rep=x.rep and y.rep)
            if op == "Mult" and {a.kind, b.kind} in ({"cols", "colv"}, {"rows", "row"}):
                return Sp("wrong")
            if op == "Mult" and a.kind == b.kind and a.kind in ("sym", "gen"):
                a, b = self.sym(a), self.sym(b)
                if np.allclose(a.f, b.f):
                    return Sp("squares", a.f)
        if op == "Pow" and a.kind in ("sym", "gen") and b.kind == "num" and b.f == 2:
            return Sp("squares", self.sym(a).f)
        if "wrong" in (a.kind, b.kind):
            return Sp("wrong")
        raise Unknown(f"{op} of {a.kind} and {b.kind}")

    def mm(self, a, b):
        rep = a.rep and b.rep
        if "wrong" in (a.kind, b.kind):
            return Sp("wrong")
        if a.kind == "cols" and b.kind == "dmat":
            return a.but(f=a.f * b.f, rep=rep)
        if a.kind == "dmat" and b.kind == "rows":
            return b.but(f=a.f * b.f, rep=rep)
        if a.kind in ("sym", "gen") and b.kind in ("sym", "gen"):
            a, b = self.sym(a), self.sym(b)
            return Sp("sym", a.f * b.f, rep=rep)
        if a.kind in ("cols", "rows") and b.kind in ("cols", "rows") and (np.shape(a.g) != np.shape(b.g) or not np.allclose(a.g, b.g)):
            raise Unknown("vectors of different decompositions")
        if a.kind == "cols" and b.kind == "rows":
            # The unitary factor is well defined where the singular values are not zero.
            s = np.where(a.g < 0, -1.0, 1.0) if {a.b, b.b} == {"U", "V"} else 1.0
            return Sp("sym", s * a.f * b.f, rep=rep)
        if a.kind == "rows" and b.kind == "cols":
            if {a.b, b.b} == {"U", "V"}:
                # Only a diagonal matrix of signs if no two eigenvalues are opposite.
                mixed = any(x < -1e-12 and np.any(np.abs(a.g + x) < 1e-9) for x in a.g)
                return Sp("overlap", np.where(a.g < 0, -1.0, 1.0) * a.f * b.f, rep=rep and not mixed)
            if a.b == b.b:
                return Sp("sym", np.ones(len(self.w)) * a.f * b.f, rep=rep) if np.allclose(a.f * b.f, 1) else Sp("dmat", a.f * b.f, rep=rep)
        raise Unknown(f"product of {a.kind} and {b.kind}")


EIGENVALUES = ([1.0, 2.5, 0.3], [-1.0, -0.4, -3.0], [2.0, -0.7, 0.4], [1.5, -1.5, 0.2], [0.6, 0.6, -2.0], [-0.8, -0.8, 0.8])


class Matrices:
    """Domain of matrices of a fixed size, to confirm that a transform is not the one it should be."""

    FNS = {"abs", "sqrt", "exp", "log", "log1p", "sign", "square", "maximum", "minimum", "where", "add", "subtract", "multiply", "divide", "negative", "diag", "trace", "max", "min", "sum", "mean", "isclose", "clip", "any", "all", "outer"}
    OPS = {"Add": np.add, "Sub": np.subtract, "Mult": np.multiply, "Div": np.divide, "Pow": np.power, "Eq": np.equal, "NotEq": np.not_equal, "Gt": np.greater, "GtE": np.greater_equal, "Lt": np.less, "LtE": np.less_equal, "MatMult": np.matmul}

    def __call__(self, T, op, *args):
        pos, kw = T.split(args)
        name = op.split(".")[-1]
        if op == "c":
            return eval(args[0], {"__builtins__": {}}, {"inf": np.inf, "nan": np.nan})
        if op in SAME:
            return T(pos[0])
        if op == "item":
            return T(pos[1])[pos[0]]
        x = [T(i) for i in pos]
        kw = {k: T(v) for k, v in kw.items()}
        if op in ("neg", "USub"):
            return -x[0]
        if name in ("transpose", "T") and len(x) == 1 and not kw:
            return np.swapaxes(x[0], -1, -2) if np.ndim(x[0]) > 1 else x[0]
        if op in self.OPS and not kw:
            return self.OPS[op](*x)
        if name in ("eye", "identity") and len(x) == 1 and not kw:
            return np.eye(len(x[0]) if np.ndim(x[0]) else int(x[0]))
        if name in ("mm", "matmul", "dot") and len(x) in (2, 3) and set(kw) <= {"tr_a", "tr_b", "tr_c"}:
            y = None
            for k, m in zip("abc", x):
                m = m.T if kw.get("tr_" + k) else m
                y = m if y is None else y @ m
            return y
        if name == "svd" and not kw:
            u, s, vt = np.linalg.svd(x[0])
            return (u, s, vt.T if op.startswith("B.") else vt)
        if name == "eigh" and not kw:
            return tuple(np.linalg.eigh(x[0]))
        if name in ("inv", "pinv", "norm"):
            return getattr(np.linalg, name)(*x, **kw)
        if name == "pd_inv":
            return np.linalg.inv(x[0])
        if name in ("diag_extract", "diagonal"):
            return np.diag(x[0])
        if name == "relu":
            return np.maximum(x[0], 0)
        if name == "expand_dims" and len(x) + len(kw) == 2:
            return np.expand_dims(x[0], kw.get("axis", x[-1]))
        if name in self.FNS:
            return getattr(np, name)(*x, **kw)
        raise Unknown(op)

    @staticmethod
    def differs(a, v, inv):
        q, _ = np.linalg.qr(np.array([[0.3, 1.2, -0.4], [0.9, -0.2, 0.7], [-1.1, 0.5, 0.8]]))
        skew = np.array([[0, 0.3, -0.2], [-0.3, 0, 0.45], [0.2, -0.45, 0]])
        for w in ([1.3, 0.4, -0.6], [-0.2, -1.7, 0.5], [0.3, 2.0, 0.9], [-0.5, -1.0, -2.2], [1.3e-3, 4e-4, -6e-4], [1.3e3, 4e2, -6e2]):
            w = np.array(w)
            size = 10 ** np.round(np.log10(np.max(np.abs(w))))
            for sk in (0, 1):
                with np.errstate(all="ignore"):
                    try:
                        y = np.asarray(Terms(Matrices(), {a: (q * w) @ q.T + sk * size * skew})(v))
                    except Unknown:
                        return None
                    except (ValueError, TypeError, IndexError, np.linalg.LinAlgError):
                        return "could not be computed"
                pos = np.maximum(w, 0)
                ref = (q * (np.where(w > 0, 1 / np.where(w > 0, w, 1), 0) if inv else pos)) @ q.T
                if y.shape != ref.shape or not np.allclose(y, ref, atol=1e-6 * (1 / size if inv else size)):
                    return f"is not the {'inverse of the ' if inv else ''}closest positive semi-definite matrix for a matrix{' that is not symmetric' if sk else ''} with eigenvalues {[float(x) for x in w]}"
        return ""


def closest(R, prop):
    prog = Program()
    fn = find_fn(prog, "closest_psd")
    where = fn[0].where
    for inv in (None, False, True):
        r = Run(prog, cfg=dict(optree=True))
        a = tin("a", (n, n))
        kw = {} if inv is None else {"inv": num(inv)}
        key = f"closest_psd(inv={inv})"
        v = L.asv(r.I, r.st, r.call(Fn(fn), a, **kw))
        R.absorb(r.I)
        ws = EIGENVALUES + (() if inv else ([1.0, 0.0, -1.0], [0.0, 0.0, 0.7], [0.0, 0.0, 0.0])) + ([3e-5, -2e-5, 1e-5], [4e5, -1e5, 7e4])
        for w in ws:
            k = f"{key} at eigenvalues {w}"
            R.anchor("eigenvalues")
            try:
                D = Spectral(w)
                x = Terms(D, {L.idof(a): Sp("gen", (1.0, 0.0))})(L.idof(v))
                if x.kind == "wrong":
                    R.bad(k, f"{where}: scales the components instead of the vectors of a decomposition ({key})")
                    continue
                x = D.sym(x)
            except Unknown as e:
                d = Matrices.differs(L.idof(a), L.idof(v), inv)
                if d:
                    R.bad(key, f"{where}: the result {d} ({key})")
                    break
                R.open(k, f"unknown operation: {e}")
                continue
            w = np.asarray(w)
            ref = np.maximum(w, 0) if not inv else np.where(w > 0, 1 / np.where(w > 0, w, 1), 0)
            if not x.rep:
                R.bad(f"{key}: signs of singular vectors", f"{where}: takes the elementwise overlap of left and right singular vectors as the signs of eigenvalues, but if two eigenvalues are opposite, such as {[float(q) for q in w]}, the singular vectors may be any basis of the space of both; the result is then not the closest matrix ({key})")
                continue
            ok = np.all(np.isfinite(x.f)) and np.allclose(x.f, ref, atol=1e-9 * min(1, np.max(np.abs(w))))
            R.check(k, bool(ok), f"{where}: at eigenvalues {[float(q) for q in w]} the result has eigenvalues {[float(round(q, 6)) for q in x.f]} for these eigenvectors, where the {'inverse of the ' if inv else ''}closest positive semi-definite matrix has {[float(round(q, 6)) for q in ref]} ({key})")


def jobs(prop):
    def f(tier):
        if prop == "C34":
            return [("c_spec", "min_phase", (prop,))] + [("c_spec", "use", (prop, m, s)) for m in MODELS for s in ("structured", "mean-field")]
        return [("c_spec", "closest", (prop,))]
    return f
