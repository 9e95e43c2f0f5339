"""Transfer functions on abstract tensors (`V`)."""
import functools
from fractions import Fraction
from . import nf as N
from .nf import NF, TooBig
from .dom import *

Z = NF()  # The zero normal form.
HALF = Fraction(1, 2)


def tags(*vs):
    t = frozenset()
    for v in vs:
        t |= getattr(v, "tags", frozenset())
    return t - {"lit"}


def zero_w(w):
    return w is not None and not w.t


def flatwise(f):
    """Elementwise operations commute with flattening."""

    @functools.wraps(f)
    def g(*args, **kw):
        out = f(*args, **kw)
        vs = [a for a in args if isinstance(a, V)]
        fl = [v for v in vs if v.flat is not None]
        one = lambda v: v.is_const or v.sh == () or v.nf is not None and not v.nf.free()
        if fl and isinstance(out, V) and known(out) and all(v.flat.sh == fl[0].flat.sh if v.flat is not None else one(v) for v in vs):
            out.flat = f(*[a if not isinstance(a, V) or a.is_const else a.flat if a.flat is not None else a.but(sh=()) for a in args], **kw)
            if out.flat.nf is None or out.flat.sh != fl[0].flat.sh:
                out.flat = None
        tr = [k for k, a in enumerate(args) if isinstance(a, V) and a.tree is not None]
        if len(tr) == 1 and isinstance(out, V) and known(out) and out.nf is None:
            t = args[tr[0]]
            ax = t.tree[1]
            if all(v is t or v.is_const or known(v) and (-ax > len(v.sh) or v.sh[ax] == ONE) and len(v.sh) <= len(t.sh) for v in vs):
                out.tree = treemap(t.tree, ax, lambda x: g(*[x if k == tr[0] else a for k, a in enumerate(args)], **kw))
        return out

    return g


def treemap(t, axis, f):
    """Apply a function to the parts, with the axis of the node replaced."""
    return (t[0], axis, tuple(f(x) for x in t[2])) if t[0] == "cat" else (t[0], axis, t[2], f(t[3]))


def leaves(v):
    """Tensors whose elements make up a tensor."""
    if v.nf is not None or v.tree is None:
        return [v]
    return [l for x in (v.tree[2] if v.tree[0] == "cat" else (v.tree[3],)) for l in leaves(x)]


def asfrac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float) and x == x and abs(x) != float("inf"):
        return Fraction(repr(x))
    return None


def simp(w):
    """Simplify a derivative with respect to a shift: recognise zero."""
    if w is None or not w.t:
        return w
    try:
        if w.is_zero():
            return Z
    except TooBig:
        return w
    from . import nfeval
    if len(w.t) > 1 and nfeval.zero(w) is True:
        return Z
    return w


@flatwise
def vadd(a, b, s=1, msg="sum"):
    if a.is_const and b.is_const and _numc(a.c) and _numc(b.c):
        return num(a.c + s * b.c)
    out = V()
    out.u = uadd(a.u, b.u, msg)
    out.lo = lo_add(a.lo, b.lo, s)
    out.sh = broadcast(a.sh, b.sh, msg)
    out.nf = safe(lambda x, y: x + y.scale(s), a.nf, b.nf)
    out.w = safe(lambda x, y: x + y.scale(s), a.w, b.w)
    out.tags = tags(a, b)
    out.ty = "int" if a.ty == "int" and b.ty == "int" else None
    out.ty = out.ty or permty(a, b)
    if (out.lo is None or out.lo == ()) and a.ty == b.ty == "int":
        out.lo = ()
    return out


def _numc(c):
    return isinstance(c, (int, float)) and not isinstance(c, str)


def permty(a, b=None):
    """Propagate order information through elementwise operations with a scalar."""
    if b is None:
        return a.ty if isinstance(a.ty, tuple) and a.ty[0] == "perm" else None
    ta, tb = permty(a), permty(b)
    if ta and (tb is None and b.sh == () or ta == tb):
        return ta
    if tb and a.sh == ():
        return tb
    return None


@flatwise
def vneg(a):
    if a.is_const and _numc(a.c):
        return num(-a.c)
    return a.but(nf=safe(lambda x: -x, a.nf), w=safe(lambda x: -x, a.w), lo=lo_scale(a.lo, N.const(-1)), roots=frozenset(), ty="int" if a.ty == "int" else permty(a), c=MISSING, tok=None)


def wmul(a, b):
    if zero_w(a.w) and zero_w(b.w):
        return Z
    if a.w is None or b.w is None:
        return None
    x = Z if zero_w(a.w) else safe(lambda p, q: p * q, a.w, b.nf)
    y = Z if zero_w(b.w) else safe(lambda p, q: p * q, a.nf, b.w)
    return simp(safe(lambda p, q: p + q, x, y))


@flatwise
def vmul(a, b, msg="product"):
    if a.is_const and b.is_const and _numc(a.c) and _numc(b.c):
        return num(a.c * b.c)
    out = V()
    out.u = umul(a.u, b.u)
    out.lo = lomul(a, b)
    out.sh = broadcast(a.sh, b.sh, msg)
    out.nf = safe(lambda x, y: x * y, a.nf, b.nf)
    out.w = wmul(a, b)
    out.tags = tags(a, b)
    out.ty = "int" if a.ty == "int" and b.ty == "int" else permty(a, b)
    return out


def lomul(a, b):
    if a.lo == () and b.lo == ():
        return ()
    if a.lo is None or b.lo is None:
        return None
    if a.lo and b.lo:
        return None
    return lo_scale(a.lo, b.nf) if a.lo else lo_scale(b.lo, a.nf)


def vinv(a):
    w = None
    if zero_w(a.w):
        w = Z
    elif a.w is not None and a.nf is not None:
        w = safe(lambda p, q: -(p * q.pow(-2)), a.w, a.nf)
    nf = safe(lambda x: x.pow(-1), a.nf)
    if a.nf is not None and not a.nf.t and a.sh == ():
        nf = N.sym("1/0", 0, "")
    return a.but(u=upow(a.u, -1), lo=() if a.lo == () else None, nf=nf, w=w, c=MISSING, roots=frozenset(), ty=permty(a), tok=None)


@flatwise
def vdiv(a, b, msg="quotient"):
    if a.is_const and b.is_const and _numc(a.c) and _numc(b.c) and b.c not in (0, 0.0):
        if isinstance(a.c, int) and isinstance(b.c, int):
            return num(a.c / b.c).but(nf=N.const(Fraction(a.c, b.c)))
        return num(a.c / b.c)
    if b.ty == "int" and a.ty == "int":
        b = b.but(ty=None)
    return vmul(a, vinv(b), msg)


@flatwise
def vpow(a, b, msg="power"):
    if a.is_const and b.is_const and _numc(a.c) and _numc(b.c) and (a.c > 0 or isinstance(b.c, int)) and a.c:
        f = asfrac(b.c)
        try:
            return num(a.c**b.c).but(nf=N.const(asfrac(a.c)).pow(f))
        except Exception:
            pass
    q = asfrac(b.c) if b.is_const and _numc(b.c) else None
    if q is None and b.nf is not None:
        q = b.nf.const()
    if q is None:
        out = V(u=unone(a.u, msg), lo=None, sh=broadcast(a.sh, b.sh, msg), tags=tags(a, b))
        out.u = umerge_bad(U1, out.u)
        if zero_w(a.w) and zero_w(b.w):
            out.w = Z
            out.nf = safe(lambda x, y: N.fn("power", x, y), a.nf, b.nf)
        return out
    w = None
    if zero_w(a.w):
        w = Z
    elif a.w is not None and a.nf is not None:
        w = safe(lambda p, x: p * x.pow(q - 1).scale(q), a.w, a.nf) if q != 0 else Z
    u = upow(a.u, q)
    return a.but(u=u, lo=() if a.lo == () else (a.lo if q == 1 else None), nf=safe(lambda x: x.pow(q), a.nf), w=w, c=MISSING, roots=frozenset(), ty="int" if a.ty == "int" and q.denominator == 1 and q >= 0 else permty(a), tok=None)


def vsqrt(a):
    return vpow(a, num(0.5))


@flatwise
def vfun(name, a, msg=None):
    """Elementwise nonlinear function."""
    msg = msg or name
    out = V(sh=a.sh, tags=tags(a), ty=permty(a))
    if name == "exp":
        out.u = umerge_bad(U1, unone(a.u, msg))
        out.lo = ()
        if a.lo:
            out.u = None
        out.nf = safe(lambda x: N.fn("exp", x), a.nf)
        out.w = Z if zero_w(a.w) else safe(lambda p, q: p * q, a.w, out.nf)
        return out
    if name in ("log", "log10"):
        out.u = umerge_bad(U1, a.u) if a.u is not None else None
        lo = lo_of_unit(a.u)
        nf = safe(lambda x: N.fn("log", x), a.nf)
        w = Z if zero_w(a.w) else safe(lambda p, x: p * x.pow(-1), a.w, a.nf)
        if name == "log10":
            k = N.fn("log", N.const(10)).pow(-1)
            lo = lo_scale(lo, k)
            nf = safe(lambda x: x * k, nf)
            w = safe(lambda x: x * k, w)
        if a.lo:
            lo = None
        out.lo, out.nf, out.w = lo, nf, w
        return out
    if name in ("abs", "real", "relu"):
        out.u = a.u
        out.lo = () if a.lo == () else None
        if name == "abs":
            out.nf = safe(lambda x: N.fn("abs", x), a.nf)
            out.w = Z if zero_w(a.w) else safe(lambda p, x: p * N.fn("sign", x), a.w, a.nf)
        else:
            out.nf = safe(lambda x: N.fn(name, x), a.nf)
            out.w = Z if zero_w(a.w) else None
        return out
    if name == "sign":
        out.u = umerge_bad(U1, a.u) if a.u is not None else U1
        out.lo = ()
        out.nf = safe(lambda x: N.fn("sign", x), a.nf)
        out.w = Z if zero_w(a.w) else safe(lambda p, x: p * N.fn("dgate", x), a.w, a.nf)
        return out
    if name in ("sin", "cos", "erf", "tanh", "expm1", "log1p", "ceil", "floor", "round", "tan"):
        out.u = umerge_bad(U1, unone(a.u, msg))
        out.lo = ()
        out.nf = safe(lambda x: N.fn(name, x), a.nf)
        if zero_w(a.w):
            out.w = Z
        elif name == "sin":
            out.w = safe(lambda p, x: p * N.fn("cos", x), a.w, a.nf)
        elif name == "cos":
            out.w = safe(lambda p, x: -(p * N.fn("sin", x)), a.w, a.nf)
        else:
            out.w = safe(lambda p, x: p * N.fn("d" + name, x), a.w, a.nf)
        return out
    out.u = None
    out.lo = None
    out.w = Z if zero_w(a.w) else None
    out.nf = safe(lambda x: N.fn(name, x), a.nf)
    return out


@flatwise
def vminmax(name, a, b):
    out = V(sh=broadcast(a.sh, b.sh, name), tags=tags(a, b), lo=() if a.lo == () and b.lo == () else None)
    out.u = uadd(a.u, b.u, name)
    if a.u == ANY and a.is_const and b.u not in (None, ANY):
        out.u = b.u
    out.nf = safe(lambda x, y: N.fn(name, x, y), a.nf, b.nf)
    if a.w is not None and a.w == b.w:
        out.w = a.w
    elif zero_w(a.w) and b.is_const:
        out.w = Z
    elif zero_w(b.w) and a.is_const:
        out.w = Z
    elif a.w is not None and b.w is not None:
        d = safe(lambda x, y: x - y, a.nf, b.nf)
        out.w = safe(lambda p, q, g: p * g + q * (N.const(1) - g), a.w, b.w, safe(lambda x: N.fn("gt0", x.scale(1 if name == "maximum" else -1)), d))
    out.ty = "int" if a.ty == "int" and b.ty == "int" else None
    return out


def vcmp(op, a, b, msg):
    """Comparison: an indicator."""
    if op in ("Lt", "LtE"):
        a, b, op = b, a, {"Lt": "Gt", "LtE": "GtE"}[op]
    out = V(sh=broadcast(a.sh, b.sh, msg), tags=tags(a, b), ty="bool")
    u = uadd(a.u, b.u, msg)
    out.u = umerge_bad(U1, u) if u not in (None, ANY) else U1
    f = {"Gt": "gt0", "GtE": "ge0", "Eq": "eq0", "NotEq": "ne0"}[op]
    d = safe(lambda x, y: x - y, a.nf, b.nf)
    if d is not None and f in ("eq0", "ne0") and d.t and d.key()[0][1] < 0:
        d = -d
    out.nf = safe(lambda x: N.fn(f, x), d)
    if d is not None and d.const() is not None:
        c = d.const()
        out.nf = N.const(1 if {"gt0": c > 0, "ge0": c >= 0, "eq0": c == 0, "ne0": c != 0}[f] else 0)
    w = safe(lambda x, y: x - y, a.w, b.w)
    w = simp(w)
    out.w = Z if zero_w(w) else safe(lambda p, x: p * N.fn("dgate", x), w, d)
    return out


# -- axes
def _lom(lo, f):
    if not lo or isinstance(lo, Bad):
        return lo
    return tuple((k, f(x)) for k, x in lo)


def mapax(v, g, sh):
    """Relabel the axes (negative integers) by `g` and set the shape."""
    f = lambda x: x.remap(g)
    return v.but(nf=safe(f, v.nf), w=safe(f, v.w), lo=_lom(v.lo, f), sh=sh, c=MISSING)


def known(v):
    return isinstance(v.sh, tuple)


def rank(v):
    return len(v.sh) if known(v) else None


def expand(v, axis):
    """Insert an axis of size one at position `axis` of the result (non-negative)."""
    if not known(v):
        return v
    r = len(v.sh)
    sh = v.sh[:axis] + (ONE,) + v.sh[axis:]

    def g(i):
        return i - 1 if r + i < axis else i

    return mapax(v, g, sh)


def norm_axis(axis, r):
    return axis + r if axis < 0 else axis


def take_label(v, axis, label):
    """Select a generic element along an axis: the axis disappears and its label is named."""
    r = len(v.sh)
    axis = norm_axis(axis, r)
    lab = axis - r

    def g(i):
        if i == lab:
            return label
        return i + 1 if i < lab else i

    out = mapax(v, g, v.sh[:axis] + v.sh[axis + 1 :])
    if label.startswith("@"):
        out.nf = safe(ranges, safe(units, out.nf))
    return out


def transpose(v, perm=None):
    if not known(v):
        return v.but(nf=None, w=v.w if zero_w(v.w) else None)
    r = len(v.sh)
    if perm is None:
        if r < 2:
            return v
        perm = list(range(r - 2)) + [r - 1, r - 2]
    if len(perm) != r:
        return v.but(sh=Bad(f"transpose: permutation {perm} for rank {r}"))
    perm = [norm_axis(p, r) for p in perm]
    inv = {p - r: k - r for k, p in enumerate(perm)}
    out = mapax(v, lambda i: inv.get(i, i), tuple(v.sh[p] for p in perm))
    if v.tree is not None:
        out.tree = treemap(v.tree, inv[v.tree[1]], lambda x: transpose(x, perm))
    return out


def vsum(v, axes=None, mean=False, keepdims=False):
    if not known(v):
        return v.but(sh=() if axes is None else None, nf=None, w=v.w if zero_w(v.w) else None, roots=frozenset(), c=MISSING, ty=None)
    r = len(v.sh)
    if axes is None:
        axes = list(range(r))
    axes = sorted({norm_axis(a, r) for a in axes})
    if any(a >= r or a < 0 for a in axes):
        return v.but(sh=Bad(f"reduction over axis {axes} of shape {shape_str(v.sh)}"), nf=None)
    nf, w, lo = v.nf, v.w, v.lo
    total = ONE
    for a in axes:
        d = v.sh[a]
        dd = None if unknown_dim(d) else d
        if d == ONE:
            continue
        nf = safe(lambda x: x.sum_over(a - r, dd), nf)
        w = Z if zero_w(w) else safe(lambda x: x.sum_over(a - r, dd), w)
        if lo:
            try:
                lo = tuple((k, x.sum_over(a - r, dd)) for k, x in lo)
            except TooBig:
                lo = None
        total = total * d
    if mean and total != ONE:
        inv = safe(lambda x: x.pow(-1), total)
        nf = safe(lambda x, y: x * y, nf, inv)
        w = Z if zero_w(w) else safe(lambda x, y: x * y, w, inv)
        lo = lo_scale(lo, inv)
    nf = safe(units, nf)
    keep = [k for k in range(r) if k not in axes]
    remap = {k - r: i - len(keep) for i, k in enumerate(keep)}
    g = lambda i: remap.get(i, i)
    out = v.but(nf=safe(lambda x: x.remap(g), nf), w=safe(lambda x: x.remap(g), w), lo=_lom(lo, lambda x: x.remap(g)), sh=tuple(v.sh[k] for k in keep), roots=frozenset(), c=MISSING, ty=None, tok=None)
    if keepdims:
        for a in axes:
            out = expand(out, a)
    return out


def mm2(a, b, msg):
    """Matrix product over the last two axes, with broadcasting."""
    out = V(tags=tags(a, b))
    out.u = umul(a.u, b.u)
    if isinstance(a.sh, Bad) or isinstance(b.sh, Bad):
        out.sh = a.sh if isinstance(a.sh, Bad) else b.sh
        out.w = Z if zero_w(a.w) and zero_w(b.w) else None
        out.lo = () if a.lo == () and b.lo == () else None
        return out
    if not known(a) or not known(b):
        if zero_w(a.w) and zero_w(b.w):
            out.w = Z
        out.lo = () if a.lo == () and b.lo == () else None
        return out
    if len(a.sh) < 2 or len(b.sh) < 2:
        out.sh = Bad(f"{msg}: matrix product of shapes {shape_str(a.sh)} and {shape_str(b.sh)}")
        out.w = Z if zero_w(a.w) and zero_w(b.w) else None
        return out
    e = dims_eq(a.sh[-1], b.sh[-2])
    if e is False:
        out.sh = Bad(f"{msg}: matrix product of shapes {shape_str(a.sh)} and {shape_str(b.sh)}")
        out.w = Z if zero_w(a.w) and zero_w(b.w) else None
        return out
    # `lab` broadcasts batch dimensions of products.
    batch = broadcast(a.sh[:-2], b.sh[:-2], msg)
    out.sh = batch if isinstance(batch, Bad) else batch + (a.sh[-2], b.sh[-1])
    k = a.sh[-1] if not unknown_dim(a.sh[-1]) else b.sh[-2]
    kd = None if unknown_dim(k) else k
    # Place the summed axis at a temporary label.
    T = "$k"
    fa = lambda i: T if i == -1 else i
    fb = lambda i: T if i == -2 else i

    def prod(x, y):
        z = x.remap(fa) * y.remap(fb)
        if k == ONE:
            return z
        return z.sum_over(T, kd)

    out.nf = safe(prod, a.nf, b.nf)
    if zero_w(a.w) and zero_w(b.w):
        out.w = Z
    elif a.w is not None and b.w is not None:
        x = Z if zero_w(a.w) else safe(prod, a.w, b.nf)
        y = Z if zero_w(b.w) else safe(prod, a.nf, b.w)
        out.w = simp(safe(lambda p, q: p + q, x, y))
    out.lo = () if a.lo == () and b.lo == () else None
    return out


def matv(P, name, u):
    """Matrix-valued function of a matrix (batch dimensions are not tracked in the normal form)."""
    nf = None
    if P.nf is not None and known(P) and len(P.sh) == 2 and P.sh[-1] != ONE:
        if not (P.nf.free() - {-1, -2}):
            nf = safe(lambda x: N.mat_fn(name, x), P.nf)
    sh = P.sh
    if known(P) and (len(P.sh) < 2 or dims_eq(P.sh[-1], P.sh[-2]) is False):
        sh = Bad(f"{name}: needs a square matrix, but it has shape {shape_str(P.sh)}")
    return V(u=u, sh=sh, nf=nf, w=Z if zero_w(P.w) else None, lo=() if P.lo == () else None, tags=tags(P))


def chol(P):
    if isinstance(P.ty, tuple) and P.ty[0] == "chol":
        return P
    return matv(P, "chol", upow(P.u, HALF)).but(ty=("chol", P))


def inv(P):
    return matv(P, "inv", upow(P.u, -1))


def cholarg(L):
    """Matrix of which `L` is the Cholesky factor."""
    if isinstance(L.ty, tuple) and L.ty[0] == "chol":
        return L.ty[1]
    return None


def cholsolve(L, x, msg):
    P = cholarg(L)
    if P is None:
        P = mm2(L, transpose(L), msg)
    return mm2(inv(P), x, msg)


def trisolve(L, x, msg):
    P = cholarg(L)
    if P is not None:
        A = matv(P, "cinv", upow(P.u, -HALF))
    else:
        A = matv(L, "inv", upow(L.u, -1))
    return mm2(A, x, msg)


def logdet(P):
    nf = None
    if P.nf is not None and known(P) and len(P.sh) == 2 and not (P.nf.free() - {-1, -2}):
        nf = logdet_nf(P.nf, P.sh[-1])
    out = V(u=umerge_bad(U1, P.u), sh=P.sh[:-2] if known(P) and len(P.sh) >= 2 else P.sh, nf=nf, w=Z if zero_w(P.w) else None, tags=tags(P))
    out.lo = None
    if P.u is not None and known(P) and not unknown_dim(P.sh[-1]):
        out.lo = lo_of_unit(P.u, P.sh[-1])
    elif P.u == U1:
        out.lo = ()
    if known(P) and (len(P.sh) < 2 or dims_eq(P.sh[-1], P.sh[-2]) is False):
        out.sh = Bad(f"logdet: needs a square matrix, but it has shape {shape_str(P.sh)}")
    return out


def logdet_nf(x, d):
    return N.scalar_fn("logdet", x)


def trace(P):
    if not known(P) or len(P.sh) < 2:
        return V(u=P.u, lo=P.lo if P.lo == () else None, sh=P.sh[:-2] if known(P) else None, w=Z if zero_w(P.w) else None, tags=tags(P))
    d = P.sh[-1] if P.sh[-1] != ONE else P.sh[-2]
    if dims_eq(P.sh[-1], P.sh[-2]) is False:
        return P.but(sh=Bad(f"trace: needs a square matrix, but it has shape {shape_str(P.sh)}"), nf=None, roots=frozenset())
    kd = None if unknown_dim(d) else d

    def f(x):
        x = x.remap(lambda i: "$k" if i in (-1, -2) else i)
        if d != ONE:
            x = x.sum_over("$k", kd)
        return x.remap(lambda i: i + 2)

    return V(u=P.u, lo=P.lo if P.lo == () else None, sh=P.sh[:-2], nf=safe(f, P.nf), w=Z if zero_w(P.w) else safe(f, P.w), tags=tags(P))


def diag_of(P):
    """Diagonal of a matrix."""
    if not known(P) or len(P.sh) != 2:
        return V(u=P.u, lo=None, sh=None, w=Z if zero_w(P.w) else None, tags=tags(P))
    f = lambda x: x.remap(lambda i: -1 if i in (-1, -2) else i)
    return V(u=P.u, lo=P.lo if P.lo == () else None, sh=(P.sh[0],), nf=safe(f, P.nf), w=Z if zero_w(P.w) else safe(f, P.w), tags=tags(P))


def delta(d):
    return N.from_mono(1, [(("s", "delta", (-2, -1), "S"), Fraction(1))])


def diag_mat(v):
    """Diagonal matrix of a vector."""
    if not known(v) or len(v.sh) != 1:
        return V(u=v.u, lo=None, sh=None, w=Z if zero_w(v.w) else None, tags=tags(v))
    d = v.sh[0]
    g = lambda i: -2 if i == -1 else i
    D = delta(d) if d != ONE else N.const(1)
    f = lambda x: x.remap(g) * D
    return V(u=v.u, lo=(), sh=(d, d), nf=safe(f, v.nf), w=Z if zero_w(v.w) else safe(f, v.w), tags=tags(v))


def eye(d):
    return V(u=U1, lo=(), sh=(d, d), nf=delta(d) if d != ONE else N.const(1), w=Z)


def atom(name, shape=(), flags="", u=U1, w=Z, tags=frozenset(), ty=None, lo=(), roots=frozenset()):
    """A named abstract tensor."""
    N.DIMS[name] = tuple(shape)
    idx = tuple(range(-len(shape), 0))
    keep = tuple(i for i, d in zip(idx, shape) if d != ONE)
    N.DIMS[name] = tuple(d for d in shape if d != ONE)
    x = N.from_mono(1, [(("s", name, keep, flags), Fraction(1))])
    return V(u=u, lo=lo, sh=tuple(shape), nf=x, w=w, tags=tags, ty=ty, roots=roots)


SORTS = {}  # What is sorted by the symbols of permutations.
WRAPS = {}  # Symbols for rearranged vectors: the symbol that is rearranged, how, and by what.


def rearrange(v, kind, key, d, by=None):
    """Rearrange or select elements of a vector. Elementwise functions commute with this, so that
    only the symbols in the normal form are rearranged."""
    def sym(a):
        nm = f"{kind}{'{' + key + '}' if key else ''}({a[1]})"
        WRAPS[nm] = (a[1], kind, by)
        N.DIMS[nm] = (d,)
        return (a[0], nm, a[2], "".join(c for c in a[3] if c == "+"))

    def go(x):
        out = NF()
        for m, c in x.t.items():
            y = N.const(c)
            for a, e in m:
                if -1 not in N.atom_idx(a):
                    z = N.from_mono(1, [(a, Fraction(1))])
                elif a[0] == "s" and a[2] == (-1,) and isinstance(a[1], str) and a[1].startswith("range[") and kind == "slice":
                    z = atom(f"range[{d}]", (d,)).nf + by[0]
                elif a[0] == "s" and a[2] == (-1,) and isinstance(a[1], str):
                    z = N.from_mono(1, [(sym(a), Fraction(1))])
                elif a[0] == "p":
                    z = go(a[1])
                elif a[0] == "f" and not a[3]:
                    z = N.fn(a[1], *[go(q) if isinstance(q, NF) else q for q in a[2]])
                else:
                    raise TooBig
                y = y * (z.pow(e) if e != 1 else z)
            out = out + y
        return out

    return safe(go, v.nf) if known(v) and len(v.sh) == 1 else None


def rearranged(a, memo=None):
    """The history of a symbol: the original symbol, and how it was rearranged."""
    h = []
    while a in WRAPS:
        a, kind, by = WRAPS[a]
        h.append((kind, by))
    return a, tuple(reversed(h))


def restore(x):
    """Undo all rearrangements of the symbols of a normal form."""
    out = NF()
    for m, c in x.t.items():
        y = N.const(c)
        for a, e in m:
            if a[0] == "s" and a[1] in WRAPS:
                z = N.from_mono(1, [((a[0], rearranged(a[1])[0], a[2], a[3]), Fraction(1))])
            elif a[0] == "p":
                z = restore(a[1])
            elif a[0] == "f" and not a[3]:
                z = N.fn(a[1], *[restore(q) if isinstance(q, NF) else q for q in a[2]])
            else:
                z = N.from_mono(1, [(a, Fraction(1))])
            y = y * (z.pow(e) if e != 1 else z)
        out = out + y
    return out


def ranges(nf):
    """Fixed elements of ranges are constants, and those of slices are elements of what is sliced."""
    at = lambda a: a[0] == "s" and isinstance(a[1], str) and len(a[2]) == 1 and isinstance(a[2][0], str) and a[2][0][:1] == "@" and a[2][0][1:].isdigit()
    end = lambda a: a[0] == "s" and isinstance(a[1], str) and a[1].startswith("lin[") and a[2] == ("@-1",)
    hit = lambda a: end(a) or at(a) and (a[1].startswith("range[") or a[1].startswith("lin[") and a[2][0] == "@0" or a[1] in WRAPS and WRAPS[a[1]][1] == "slice" and WRAPS[a[1]][2][0].const() is not None)
    if nf is None or not any(hit(a) for a in nf.atoms()):
        return nf

    def elem(a):
        if end(a):
            return N.const(1)
        k = int(a[2][0][1:])
        if a[1].startswith(("range[", "lin[")):
            return N.const(k)
        base, _, (lo, _) = WRAPS[a[1]]
        return ranges(N.from_mono(1, [((a[0], base, (f"@{k + int(lo.const())}",), a[3]), Fraction(1))]))

    out = NF()
    for m, c in nf.t.items():
        y = N.const(c)
        for a, e in m:
            z = elem(a) if hit(a) else ranges(a[1]) if a[0] == "p" else N.fn(a[1], *[ranges(q) if isinstance(q, NF) else q for q in a[2]]) if a[0] == "f" and not a[3] else N.from_mono(1, [(a, Fraction(1))])
            y = y * (z.pow(e) if e != 1 else z)
        out = out + y
    return out


def dimV(d):
    c = d.const() if d is not None else None
    if c is not None and c.denominator == 1:
        return num(int(c))
    return V(u=U1, lo=(), sh=(), nf=d, w=Z, ty="int")


_unk = [0]


def fresh_unknown():
    _unk[0] += 1
    return N.sym(f"?{_unk[0]}", 0, "+")


def vdim(v):
    """Dimension described by an integer value."""
    if isinstance(v, V):
        if v.is_const and isinstance(v.c, (int, float)) and not isinstance(v.c, bool):
            return N.const(int(v.c))
        if v.nf is not None and v.ty == "int" or (v.nf is not None and v.sh == ()):
            return v.nf
    return fresh_unknown()


def reshape(v, dims):
    """Reshape to a list of dimensions (normal forms, or -1)."""
    if v.flat is not None and [d for d in v.flat.sh if d != ONE] == [d for d in dims if d != ONE]:
        return reshape(v.flat, dims)
    out = reshape_(v, dims)
    if known(v) and known(out) and len(out.sh) == 1 and out.nf is None and v.nf is not None and v.flat is None:
        p = ONE
        for d in v.sh:
            p = p * d
        if dims_eq(p, out.sh[0]) is True:
            out.flat = v
    return out


def reshape_(v, dims):
    if dims == [-1] or dims == ["-1"]:
        if not known(v):
            return v.but(sh=None, nf=None, w=v.w if zero_w(v.w) else None)
        nz = [k for k, d in enumerate(v.sh) if d != ONE]
        if len(nz) == 0:
            return mapax(v, lambda i: i, (ONE,))
        if len(nz) == 1:
            r = len(v.sh)
            return mapax(v, lambda i: -1 if i == nz[0] - r else i, (v.sh[nz[0]],))
        p = ONE
        for d in v.sh:
            p = p * d
        return v.but(sh=(p,), nf=None, w=v.w if zero_w(v.w) else None, c=MISSING)
    dims = list(dims)
    if known(v):
        if "-1" in dims:
            k = dims.index("-1")
            p, q = ONE, ONE
            for d in v.sh:
                p = p * d
            for d in dims:
                if d != "-1":
                    q = q * d
            dims[k] = safe(lambda x, y: x * y.pow(-1), p, q) or fresh_unknown()
        a = [d for d in v.sh if d != ONE]
        b = [d for d in dims if d != ONE]
        if a == b:
            ka = [k - len(v.sh) for k, d in enumerate(v.sh) if d != ONE]
            kb = [k - len(dims) for k, d in enumerate(dims) if d != ONE]
            m = dict(zip(ka, kb))
            return mapax(v, lambda i: m.get(i, i), tuple(dims))
        p, q = ONE, ONE
        for d in v.sh:
            p = p * d
        for d in dims:
            q = q * d
        if dims_eq(p, q) is False:
            return v.but(sh=Bad(f"reshape of {shape_str(v.sh)} to {shape_str(tuple(dims))}"), nf=None)
    dims = [fresh_unknown() if d == "-1" else d for d in dims]
    return v.but(sh=tuple(dims), nf=None, w=v.w if zero_w(v.w) else None, c=MISSING)


def squeeze(v):
    if not known(v):
        return v.but(nf=None, w=v.w if zero_w(v.w) else None)
    return reshape(v, [d for d in v.sh if d != ONE])


def common(vs, msg):
    """Join of the pointwise domains of values that are concatenated."""
    u = vs[0].u
    for v in vs[1:]:
        u = uadd(u, v.u, msg) if u is not None and v.u is not None else None
    w = vs[0].w if all(v.w == vs[0].w for v in vs) else None
    if w is not None and w.free() and not zero_w(w):
        w = None
    lo = vs[0].lo if all(v.lo == vs[0].lo for v in vs) else None
    return V(u=u, w=w, lo=lo, tags=tags(*vs))


def concat(vs, axis, msg):
    out = common(vs, msg)
    if any(isinstance(v.sh, Bad) for v in vs):
        out.sh = next(v.sh for v in vs if isinstance(v.sh, Bad))
        return out
    if not all(known(v) for v in vs):
        return out
    r = max(len(v.sh) for v in vs)
    if any(len(v.sh) != r for v in vs):
        out.sh = Bad(f"{msg}: concatenates ranks {[len(v.sh) for v in vs]}")
        return out
    if r == 0:
        out.sh = Bad(f"{msg}: concatenates scalars")
        return out
    axis = norm_axis(axis, r)
    sh = []
    for k in range(r):
        if k == axis:
            s = NF()
            for v in vs:
                s = s + v.sh[k]
            sh.append(s)
        else:
            d = vs[0].sh[k]
            for v in vs[1:]:
                e = dims_eq(d, v.sh[k])
                if e is False:
                    out.sh = Bad(f"{msg}: concatenates shapes {', '.join(shape_str(v.sh) for v in vs)} along axis {axis}")
                    return out
                if e is None and unknown_dim(d):
                    d = v.sh[k]
            sh.append(d)
    out.sh = tuple(sh)
    if r == 1:
        out.ty = ("cat", tuple(vs))
    if all(v.nf is not None or v.tree is not None for v in vs):
        out.tree = ("cat", axis - r, tuple(vs))
    return out


def stack(vs, axis, msg):
    out = common(vs, msg)
    if any(not known(v) for v in vs):
        return out
    r = len(vs[0].sh)
    for v in vs[1:]:
        if len(v.sh) != r or any(dims_eq(p, q) is False for p, q in zip(v.sh, vs[0].sh)):
            out.sh = Bad(f"{msg}: stacks shapes {shape_str(vs[0].sh)} and {shape_str(v.sh)}")
            return out
    axis = norm_axis(axis, r + 1)
    out.sh = vs[0].sh[:axis] + (N.const(len(vs)),) + vs[0].sh[axis:]
    if len(vs) == 1:
        return expand(vs[0], axis)
    if len(vs) <= 4 and all(v.nf is not None for v in vs):
        # A sum over unit vectors.
        K = len(vs)
        out.nf = NF()
        for k, v in enumerate(vs):
            e = atom(f"e:{k}/{K}", (N.const(K),)).nf.remap(lambda i: axis - (r + 1))
            out.nf = safe(lambda p, q, o: o + p * q, expand(v, axis).nf, e, out.nf)
            if out.nf is None:
                break
    return out


def units(nf):
    """Simplify unit vectors."""
    if nf is None or not any(a[0] == "s" and isinstance(a[1], str) and a[1].startswith("e:") for m in nf.t for a, _ in m):
        return nf
    out = NF()
    for m, c in nf.t.items():
        items, seen, zero = [], {}, False
        for a, e in m:
            if a[0] == "s" and isinstance(a[1], str) and a[1].startswith("e:"):
                i = a[2][0]
                k = int(a[1][2:].split("/")[0])
                if isinstance(i, str) and i.startswith("@") and i[1:].isdigit():
                    zero = zero or int(i[1:]) != k
                elif seen.setdefault(i, (a, k))[1] != k:
                    zero = True
            else:
                items.append((a, e))
        if zero:
            continue
        used = {i for a, _ in items for i in N.atom_idx(a)}
        for i, (a, k) in seen.items():
            if not isinstance(i, tuple) or i in used:
                items.append((a, Fraction(1)))
        out = out + N.from_mono(c, items)
    return out


def stack_seq(elem, n, lab, axis):
    """Stack a sequence: the label of the sequence becomes an axis."""
    if not isinstance(elem, V):
        return TOP()
    if not known(elem):
        return elem.but(sh=elem.sh if isinstance(elem.sh, Bad) else None, nf=None, w=elem.w if zero_w(elem.w) else None, roots=frozenset(), c=MISSING)
    r = len(elem.sh)
    axis = norm_axis(axis, r + 1)
    v = expand(elem, axis)
    d = n if n is not None else fresh_unknown()
    sh = v.sh[:axis] + (d,) + v.sh[axis + 1 :]
    lbl = axis - (r + 1)
    if lab is None:
        ok = zero_w(v.w)
        return v.but(sh=sh, nf=None, w=Z if ok else None, roots=frozenset(), c=MISSING)
    f = lambda x: x.relabel(lab, lbl)
    return v.but(sh=sh, nf=safe(f, v.nf), w=safe(f, v.w), lo=_lom(v.lo, f), roots=frozenset(), c=MISSING)
