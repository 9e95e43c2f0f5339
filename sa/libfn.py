"""Transfer functions of library functions."""
import math
from fractions import Fraction
import ast
from . import nf as N
from .nf import NF, TooBig
from .dom import *
from . import ops as O
from .ops import Z

T = {}


def fn(*paths):
    def dec(f):
        for p in paths:
            T[p] = f
        return f
    return dec


def both(*names):
    return [f"B.{n}" for n in names] + [f"np.{n}" for n in names]


def table(p):
    return T.get(p)


def _lib():
    from . import lib
    return lib


def av(I, st, x):
    return _lib().asv(I, st, x)


def C(x, d=None):
    """Value of a constant."""
    return x.c if isinstance(x, V) and x.is_const else d


def isnone(x):
    return x is None or isinstance(x, V) and x.is_const and x.c is None


def axes_of(I, st, x):
    if isnone(x):
        return None
    c = C(x)
    if isinstance(c, int):
        return [c]
    it = _lib().concrete_items(I, st, x)
    if it is not None and all(isinstance(C(i), int) for i in it):
        return [C(i) for i in it]
    return "?"


def splat(I, st, args):
    """Arguments, with a starred sequence: ('items', list) or ('seq', Seq)."""
    from .interp import EObj, Seq
    for a in args:
        if isinstance(a, EObj) and a.kind == "star":
            s = a.f["seq"]
            return "seq", s
    return "items", list(args)


def unknown(I, st, p, args, kw, node):
    I.unsupported[p] = I.unsupported.get(p, 0) + 1
    t, r = frozenset(), None
    for a in list(args) + list(kw.values()):
        if isinstance(a, V):
            t |= a.tags
            r = (r or frozenset()) | a.roots
    return V(tags=t - {"lit"}, lo=None)


def isdtype(x):
    from .interp import EObj, Ext
    return isinstance(x, EObj) and x.kind == "dtype" or isinstance(x, Ext)


def keepw(v):
    """The weight after a selection or average along an axis."""
    if v.w is None:
        return None
    return v.w if O.zero_w(v.w) or not v.w.free() else None


# Functions that modify their first argument.
MODIFIES = {
    "np.random.shuffle", "rng.shuffle", "random.shuffle", "np.put", "np.copyto", "np.place", "np.putmask", "np.fill_diagonal", "np.put_along_axis",
    "heapq.heapify", "heapq.heappush", "heapq.heappop", "np.add.at", "np.multiply.at", "np.subtract.at", "np.maximum.at",
}


# -- identity-like
@fn("B.dense", "B.to_numpy", "np.asarray", "matrix.Dense", "B.real_", "jax.numpy.asarray", "np.ascontiguousarray")
def f_ident(I, st, args, kw, node):
    from .interp import Tup
    if len(args) == 1:
        return args[0] if isinstance(args[0], V) else (av(I, st, args[0]) if not hasattr(args[0], "f") else args[0])
    return Tup([av(I, st, a) for a in args])


@fn("plum.convert", "B.convert")
def f_convert(I, st, args, kw, node):
    return args[0]


@fn("np.array", "B.array_")
def f_array(I, st, args, kw, node):
    v = av(I, st, args[0])
    return v.but(roots=frozenset(), c=MISSING if v.is_const and not O._numc(v.c) else v.c)


@fn("np.copy", "copy.copy", "copy.deepcopy")
def f_copy(I, st, args, kw, node):
    from .interp import Ref, Obj
    x = args[0]
    if isinstance(x, V):
        return x.but(roots=frozenset())
    if isinstance(x, Ref):
        o = st.heap[x.a]
        at = {k: v for k, v in o.attrs.items() if k != "$roots"}
        r = I.new(st, o.kind, o.cls)
        st.heap[r.a] = Obj(o.kind, o.cls, at)
        return r
    return x


LOSSY = ("float32", "float16", "half", "single", "bfloat16", "f4", "f2", "<f4")


def lossy(d):
    """The name of a type of low precision, or `None`."""
    from .interp import Ext
    leaf = d.path.rpartition(".")[2] if isinstance(d, Ext) else d.c if isinstance(d, V) and d.is_const else None
    return leaf if leaf in LOSSY else None


def lowered(v, d):
    """Conversion to a type of low precision."""
    return v.but(nf=O.safe(lambda x: N.fn("cast_" + d, x), v.nf), c=MISSING, roots=frozenset())


@fn("np.round", "np.around", "B.round", "B.floor", "B.ceil", "np.trunc", "np.rint")
def f_round(I, st, args, kw, node):
    v = av(I, st, args[0])
    return O.vfun(_callee(node) or "round", v)


@fn("B.cast")
def f_cast(I, st, args, kw, node):
    v = av(I, st, args[1])
    d = lossy(args[0])
    if d and O.known(v):
        return lowered(v, d)
    if v.ty == "bool":
        v = v.but(ty=None)
    return v.but(roots=frozenset(), ty=None if v.ty == "int" else v.ty) if not v.is_const else v


@fn("B.cast_keep")
def f_cast_keep(I, st, args, kw, node):
    return args[0]


@fn("jax.lax.stop_gradient", "B.stop_gradient")
def f_sg(I, st, args, kw, node):
    v = av(I, st, args[0])
    I.event("stop_gradient", node)
    if I.cfg.get("sgnf") and not v.is_const:
        v = v.but(nf=O.safe(N.held, v.nf))
    return v.but(tags=(v.tags - {"h", "hs"}) | {"sg"})


@fn("B.jit", "jax.jit")
def f_jit(I, st, args, kw, node):
    from .interp import Fn, EObj
    f = args[0]
    if isinstance(f, Fn):
        return Fn(f.fns, f.env, f.self, True)
    return EObj("jit", fn=f)


@fn("jax.jacrev", "jax.jacfwd", "jax.grad", "jax.hessian", "jax.vmap")
def f_jac(I, st, args, kw, node):
    from .interp import EObj
    return EObj("jacobian", fn=args[0])


# -- shapes
@fn("B.shape", "np.shape")
def f_shape(I, st, args, kw, node):
    from .interp import Tup, Seq
    v = av(I, st, args[0])
    idx = [C(a) for a in args[1:]]
    if not O.known(v):
        if len(idx) == 1:
            return V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=O.fresh_unknown())
        return Seq(V(u=U1, lo=(), sh=(), w=Z, ty="int"))
    if idx:
        r = []
        for i in idx:
            if not isinstance(i, int) or not -len(v.sh) <= i < len(v.sh):
                I.event("bad_axis", node)
                return TOP()
            r.append(O.dimV(v.sh[i]))
        return r[0] if len(r) == 1 else Tup(r)
    return Tup([O.dimV(d) for d in v.sh])


T["B.shape_matrix"] = f_shape


@fn("B.length", "B.size", "np.size")
def f_length(I, st, args, kw, node):
    v = av(I, st, args[0])
    if not O.known(v):
        return V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=O.fresh_unknown())
    p = ONE
    for d in v.sh:
        p = p * d
    return O.dimV(p)


@fn("B.rank", "np.ndim")
def f_rank(I, st, args, kw, node):
    v = av(I, st, args[0])
    return num(len(v.sh)) if O.known(v) else V(u=U1, lo=(), sh=(), w=Z, ty="int")


@fn("B.flatten", "np.ravel")
def f_flatten(I, st, args, kw, node):
    v = av(I, st, args[0])
    return O.reshape(v, ["-1"]).but(roots=v.roots)


@fn("B.reshape", "np.reshape")
def f_reshape(I, st, args, kw, node):
    v = av(I, st, args[0])
    rest = args[1:]
    if len(rest) == 1 and not isinstance(rest[0], V):
        it = _lib().concrete_items(I, st, rest[0])
        rest = it if it is not None else None
    kind, items = splat(I, st, rest) if rest is not None else ("seq", None)
    if kind == "seq":
        return v.but(sh=None, nf=None, w=keepw(v), c=MISSING)
    dims = []
    for d in items:
        if isinstance(d, V) and d.is_const and d.c == -1:
            dims.append("-1")
        else:
            dims.append(O.vdim(av(I, st, d)))
    return O.reshape(v, dims).but(roots=v.roots)


@fn("B.squeeze", "np.squeeze")
def f_squeeze(I, st, args, kw, node):
    v = av(I, st, args[0])
    return O.squeeze(v).but(roots=v.roots)


@fn("B.expand_dims", "np.expand_dims")
def f_expand(I, st, args, kw, node):
    v = av(I, st, args[0])
    a = C(kw.get("axis", args[1] if len(args) > 1 else num(0)))
    if not O.known(v) or not isinstance(a, int):
        return v.but(sh=None, nf=None, w=keepw(v))
    if a < 0:
        a += len(v.sh) + 1
    return O.expand(v, a)


@fn("B.uprank")
def f_uprank(I, st, args, kw, node):
    v = av(I, st, args[0])
    r = C(kw.get("rank", args[1] if len(args) > 1 else num(2)))
    if O.known(v) and isinstance(r, int):
        while len(v.sh) < r:
            v = O.expand(v, len(v.sh))
    return v


@fn("B.transpose", "np.transpose", "B.t", "B.T")
def f_transpose(I, st, args, kw, node):
    v = av(I, st, args[0])
    p = kw.get("perm", args[1] if len(args) > 1 else None)
    if isnone(p):
        return O.transpose(v)
    ax = axes_of(I, st, p)
    if ax == "?" or ax is None or not O.known(v):
        return v.but(sh=None, nf=None, w=Z if O.zero_w(v.w) else keepw(v))
    return O.transpose(v, ax)


@fn("B.take", "np.take")
def f_take(I, st, args, kw, node):
    v = av(I, st, args[0])
    i = av(I, st, args[1])
    a = C(kw.get("axis", args[2] if len(args) > 2 else num(0)))
    if not O.known(v) or not isinstance(a, int):
        return v.but(sh=None, nf=None, w=keepw(v), roots=frozenset())
    a = O.norm_axis(a, len(v.sh))
    if a >= len(v.sh):
        return v.but(sh=Bad(f"{I.loc(node)}: axis {a} of shape {shape_str(v.sh)}"), nf=None)
    d = i.sh[0] if O.known(i) and len(i.sh) == 1 else O.fresh_unknown()
    out = v.but(sh=v.sh[:a] + (d,) + v.sh[a + 1:], nf=None, w=keepw(v), roots=frozenset(), c=MISSING)
    if v.nf is not None or v.tree is not None:
        out.tree = ("take", a - len(v.sh), repr(i.nf) if i.nf is not None else args[1], v)
    return out


def _cat(kind):
    def f(I, st, args, kw, node):
        from .interp import Tup, Ref
        a = C(kw.get("axis", num(0)), 0)
        k, xs = splat(I, st, args)
        if k == "items" and len(xs) >= 1 and not isinstance(xs[0], V) and (len(xs) == 1 or kind == "np" or isinstance(xs[0], Ref) and st.heap[xs[0].a].kind == "list"):
            if len(xs) > 1 and isinstance(C(xs[1]), int):
                a = C(xs[1])
            it = _lib().concrete_items(I, st, xs[0])
            if it is None:
                k, xs = "seq", _lib().to_seq(I, st, xs[0], node)
            else:
                xs = it
        if k == "seq":
            if kind == "stack":
                if xs is None or not isinstance(xs.elem, V):
                    return TOP()
                return O.stack_seq(xs.elem, xs.n, xs.lab, a)
            e = xs.elem if xs is not None and isinstance(xs.elem, V) else TOP()
            return V(u=e.u, lo=e.lo, w=keepw(e), tags=O.tags(e), sh=e.sh[:0] + (O.fresh_unknown(),) if O.known(e) and len(e.sh) == 1 else None)
        xs = [av(I, st, x) for x in xs]
        if not xs:
            return TOP()
        if kind == "stack":
            return O.stack(xs, a, I.loc(node))
        return O.concat(xs, a, I.loc(node))
    return f


T["B.stack"] = T["np.stack"] = _cat("stack")
T["B.concat"] = _cat("concat")
T["np.concatenate"] = _cat("np")


@fn("np.vstack", "np.hstack", "np.column_stack", "B.block", "B.concat2d", "B.tile", "B.repeat", "np.tile", "np.repeat")
def f_vague(I, st, args, kw, node):
    vs = [av(I, st, a) for a in args if not isdtype(a)]
    vs = vs or [TOP()]
    return V(u=vs[0].u, lo=vs[0].lo, w=keepw(vs[0]), tags=O.tags(*vs))


def _shape_args(I, st, args):
    """Shape given as integers, a tuple, a tensor, or with a leading data type."""
    args = [a for a in args if not isdtype(a)]
    if len(args) == 1 and not (isinstance(args[0], V) and (args[0].ty == "int" or args[0].is_const)):
        if isinstance(args[0], V):
            return args[0].sh
        it = _lib().concrete_items(I, st, args[0])
        if it is None:
            return None
        args = it
    return tuple(O.vdim(av(I, st, a)) for a in args)


@fn("B.zeros", "np.zeros", "B.zero", "np.zeros_like", "B.zeros_like")
def f_zeros(I, st, args, kw, node):
    zero = isinstance(getattr(node, "func", None), object) and "zero(" in (I.loc(node) + "") and False
    return _const_tensor(I, st, args, 0)


@fn("B.zero")
def f_zero(I, st, args, kw, node):
    return V(u=ANY, lo=(), sh=(), w=Z, nf=NF(), roots=frozenset())


def _const_tensor(I, st, args, c):
    sh = _shape_args(I, st, args)
    return V(u=ANY if c == 0 else U1, lo=(), sh=sh, w=Z, nf=N.const(c))


@fn("B.ones", "np.ones", "np.ones_like")
def f_ones(I, st, args, kw, node):
    return _const_tensor(I, st, args, 1)


@fn("B.one")
def f_one(I, st, args, kw, node):
    return V(u=U1, lo=(), sh=(), w=Z, nf=N.const(1))


@fn("B.eye", "np.eye", "np.identity")
def f_eye(I, st, args, kw, node):
    args = [a for a in args if not isdtype(a)]
    if len(args) >= 1 and isinstance(args[0], V) and not (args[0].ty == "int" or args[0].is_const or args[0].sh == ()):
        v = args[0]
        if O.known(v) and len(v.sh) >= 2:
            return O.eye(v.sh[-1])
        return V(u=U1, lo=(), w=Z)
    d = O.vdim(av(I, st, args[0]))
    return O.eye(d)


@fn("B.range", "np.arange", "builtins.range_")
def f_arange(I, st, args, kw, node):
    args = [av(I, st, a) for a in args if not isdtype(a)]
    a, b, s = (num(0), args[0], num(1)) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else num(1))
    n = None
    if C(a) == 0 and C(s) == 1:
        n = O.vdim(b)
    elif C(s) == 1:
        n = O.vdim(O.vadd(b, a, -1))
    elif C(s) == -1:
        n = O.vdim(O.vadd(a, b, -1))
    n = n if n is not None else O.fresh_unknown()
    u = uadd(uadd(a.u, b.u, I.loc(node)), s.u, I.loc(node))
    i = O.atom(f"range[{n}]", (n,))
    if C(a) == 0 and C(s) == 1:
        return i.but(u=u if u != ANY else U1, ty=None)
    return V(u=u, lo=(), sh=(n,), w=keepw(a) if a.w == b.w and O.zero_w(s.w) else None)


@fn("B.linspace", "np.linspace")
def f_linspace(I, st, args, kw, node):
    args = [av(I, st, a) for a in args if not isdtype(a)]
    a, b = args[0], args[1]
    nn = kw.get("num", args[2] if len(args) > 2 else num(50))
    d = O.vdim(av(I, st, nn))
    lam = O.atom(f"lin[{d}]", (d,))
    r = O.vadd(a, O.vmul(O.vadd(b, a, -1, I.loc(node)), lam), 1, I.loc(node))
    return r.but(ty=None, c=MISSING)


# -- reductions
def _red(I, st, args, kw, node, mean=False):
    v = av(I, st, args[0])
    ax = axes_of(I, st, kw.get("axis", args[1] if len(args) > 1 else None))
    sq = C(kw.get("squeeze", num(True)), True)
    if C(kw.get("keepdims", num(False)), False):
        sq = False
    if ax == "?":
        return v.but(sh=None, nf=None, w=Z if O.zero_w(v.w) else None, roots=frozenset(), c=MISSING, ty=None)
    axis_ok(I, node, v, ax)
    return O.vsum(v, ax, mean=mean, keepdims=not sq)


def axis_ok(I, node, v, ax):
    if isinstance(ax, list) and O.known(v) and any(isinstance(a, int) and not -len(v.sh) <= a < len(v.sh) for a in ax):
        I.event("bad_axis", node)


@fn(*both("sum"))
def f_sum(I, st, args, kw, node):
    return _red(I, st, args, kw, node)


@fn(*both("mean", "average", "nanmean"))
def f_mean(I, st, args, kw, node):
    return _red(I, st, args, kw, node, True)


@fn(*both("std", "var", "median", "quantile", "percentile", "nanstd"))
def f_std(I, st, args, kw, node):
    from .interp import Fn
    v = av(I, st, args[0])
    name = _callee(node)
    q = None
    if name in ("quantile", "percentile"):
        q = av(I, st, kw.get("q", args[1] if len(args) > 1 else num(0.5)))
        ax = kw.get("axis", args[2] if len(args) > 2 else None)
    else:
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
    if q is not None and not q.is_const:
        qs = _lib().concrete_items(I, st, kw.get("q", args[1]))
        if qs is not None and 0 < len(qs) <= 20:  # Several levels.
            kws = {k: w for k, w in kw.items() if k != "q"}
            return T["B.stack"](I, st, [f_std(I, st, [args[0], z] + list(args[2:]), kws, node) for z in qs], {"axis": num(0)}, node)
    ax = axes_of(I, st, ax)
    axis_ok(I, node, v, ax)
    s = O.vsum(v, ax) if ax != "?" else v.but(sh=None)
    u = v.u if name != "var" else upow(v.u, 2)
    w = keepw(v) if name in ("quantile", "percentile", "median") else (Z if keepw(v) is not None else None)
    lev = C(q) if q is not None else 0.5 if name == "median" else None
    if name == "percentile" and isinstance(lev, (int, float)):
        lev = lev / 100
    if isinstance(lev, float):
        lev = round(lev, 12)
    nf = None
    if O.known(s) and (v.nf is not None or I.cfg.get("statatoms")):
        a = f"{name}[{lev};{ax};{v.nf if v.nf is not None else '#%d' % len(I.stats)}]"
        nf = O.atom(a, s.sh).nf
        I.stats[a] = dict(name=name, level=lev if name in ("quantile", "percentile", "median") else None, axis=ax if ax is not None else list(range(len(v.sh))), operand=v, where=I.loc(node))
    return V(u=u, lo=v.lo if v.lo == () else None, sh=s.sh, w=w, nf=nf, tags=O.tags(v), ty=("stat", name, lev, tuple(ax) if isinstance(ax, list) else ax))


def _callee(node):
    import ast
    f = getattr(node, "func", None)
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else "?"


def _ext(name):
    def f(I, st, args, kw, node):
        if len(args) == 1 or "axis" in kw:
            x = args[0]
            it = _lib().concrete_items(I, st, x) if not isinstance(x, V) else None
            if it and "axis" not in kw:
                r = av(I, st, it[0])
                for y in it[1:]:
                    r = _mm(name, r, av(I, st, y))
                return r
            v = av(I, st, x)
            if it is not None and not it and "default" in kw:
                return kw["default"]
            if "axis" in kw:
                s = _red(I, st, [v], {"axis": kw["axis"]}, node)
                return V(u=v.u, lo=v.lo, sh=s.sh, w=keepw(v), tags=O.tags(v))
            ty = "int" if v.ty == "int" else None
            nf = safe(lambda x: N.scalar_fn(name, x), v.nf) if O.known(v) and v.sh != () else v.nf
            return V(u=v.u, lo=v.lo, sh=(), w=keepw(v), nf=nf, tags=O.tags(v), ty=ty)
        r = av(I, st, args[0])
        for y in args[1:]:
            r = _mm(name, r, av(I, st, y))
        return r
    return f


def _mm(name, a, b):
    if a.is_const and b.is_const and O._numc(a.c) and O._numc(b.c):
        return num(max(a.c, b.c) if name == "max" else min(a.c, b.c))
    return O.vminmax("maximum" if name == "max" else "minimum", a, b)


for _n in ("min", "max"):
    for _p in ("B.", "np.", "builtins."):
        T[_p + _n] = _ext(_n)
T["np.amin"], T["np.amax"] = _ext("min"), _ext("max")


@fn(*both("minimum"))
def f_minimum(I, st, args, kw, node):
    return _mm("min", av(I, st, args[0]), av(I, st, args[1]))


@fn(*both("maximum"))
def f_maximum(I, st, args, kw, node):
    return _mm("max", av(I, st, args[0]), av(I, st, args[1]))


# -- elementwise
def _ew(name):
    def f(I, st, args, kw, node):
        v = av(I, st, args[0])
        if v.is_const and O._numc(v.c) and not isinstance(v.c, bool):
            if name == "abs":
                return num(abs(v.c))
            if name in ("ceil", "floor"):
                return num(float(getattr(math, name)(v.c)))
        return O.vfun(name, v, I.loc(node))
    return f


for _n in ("exp", "log", "log10", "sin", "cos", "erf", "tanh", "sign", "ceil", "floor", "tan", "abs", "log1p", "expm1"):
    for _p in ("B.", "np.", "math."):
        T[_p + _n] = _ew(_n)
T["builtins.abs"] = _ew("abs")
T["scipy.special.erf"] = _ew("erf")
T["B.ceil"] = _ew("ceil")


@fn(*both("real"))
def f_real(I, st, args, kw, node):
    v = av(I, st, args[0])
    return v


@fn(*both("imag", "angle", "conj", "conjugate"))
def f_imag(I, st, args, kw, node):
    v = av(I, st, args[0])
    return v.but(nf=None, c=MISSING, roots=frozenset(), w=Z if O.zero_w(v.w) else None)


@fn(*both("sqrt"), "math.sqrt")
def f_sqrt(I, st, args, kw, node):
    return O.vsqrt(av(I, st, args[0]))


@fn(*both("power"), "math.pow", "builtins.pow")
def f_power(I, st, args, kw, node):
    return O.vpow(av(I, st, args[0]), av(I, st, args[1]), I.loc(node))


@fn(*both("square"))
def f_square(I, st, args, kw, node):
    return O.vpow(av(I, st, args[0]), num(2), I.loc(node))


def _arith(op):
    def f(I, st, args, kw, node):
        return _lib().binop(I, st, op, args[0], args[1], node)
    return f


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div")):
    for _p in ("B.", "np."):
        T[_p + _n] = _arith(_o)
for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow"), ("matmul", "MatMult")):
    T["operator." + _n] = _arith(_o)


@fn("operator.neg", "B.negative", "np.negative")
def f_neg(I, st, args, kw, node):
    return _lib().unop(I, st, "USub", args[0], node)


def _cmp(op):
    def f(I, st, args, kw, node):
        return _lib().compare(I, st, op, args[0], args[1], node)
    return f


for _n, _o in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq")):
    T["B." + _n] = T["operator." + _n] = _cmp(_o)


@fn("varz.sequential", "varz.parametrised")
def f_sequential(I, st, args, kw, node):
    # Only names the variables.
    return args[0] if args else TOP()


@fn(*both("where"))
def f_where(I, st, args, kw, node):
    if len(args) < 2:
        return TOP()
    c, a, b = [av(I, st, x) for x in args[:3]]
    u = uadd(a.u, b.u, I.loc(node))
    sh = broadcast(broadcast(a.sh, b.sh, I.loc(node)), c.sh, I.loc(node))
    nf = safe(lambda g, x, y: g * x + (N.const(1) - g) * y, c.nf, a.nf, b.nf)
    w = Z if all(O.zero_w(x.w) for x in (a, b, c)) else None
    return V(u=umerge_bad(u, c.u), lo=a.lo if a.lo == b.lo else None, sh=sh, nf=nf, w=w, tags=O.tags(a, b, c))


@fn("np.isinf", "B.isinf", "math.isinf", "np.isnan", "B.isnan", "math.isnan", "np.isfinite")
def f_isinf(I, st, args, kw, node):
    v = av(I, st, args[0])
    n = _callee(node)
    if v.is_const and O._numc(v.c):
        return num({"isinf": math.isinf, "isnan": math.isnan, "isfinite": math.isfinite}[n](v.c))
    if v.nf is not None and v.sh == ():
        return num(n == "isfinite")
    return V(u=U1, lo=(), sh=v.sh, w=Z, ty="bool", tags=O.tags(v))


@fn("B.bvn_cdf")
def f_bvn(I, st, args, kw, node):
    a, b, r = [av(I, st, x) for x in args[:3]]
    u = U1
    for x in (a, b, r):
        u = umerge_bad(u, unone(x.u, I.loc(node)))
    out = bvn(a, b, r, I.loc(node))
    out.u = u
    return out


@O.flatwise
def bvn(a, b, r, msg):
    sh = broadcast(broadcast(a.sh, b.sh, msg), r.sh, msg)
    w = Z if all(O.zero_w(O.simp(x.w)) for x in (a, b, r)) else None

    def f(x, y, z):
        # Symmetric in the first two arguments.
        if repr(y.key()) < repr(x.key()):
            x, y = y, x
        return N.fn("bvn", x, y, z)

    return V(u=U1, lo=(), sh=sh, w=w, nf=safe(f, a.nf, b.nf, r.nf), tags=O.tags(a, b, r))


# -- linear algebra
def _tr(v, t):
    return O.transpose(v) if C(t, False) else v


@fn("B.mm", "B.matmul", "np.matmul", "np.dot", "B.dot")
def f_mm(I, st, args, kw, node):
    m = I.loc(node)
    vs = [av(I, st, x) for x in args]
    a = _tr(vs[0], kw.get("tr_a"))
    b = _tr(vs[1], kw.get("tr_b"))

    def mul(x, y):
        if x.sh == () or y.sh == ():
            return O.vmul(x, y, m)
        if O.known(x) and O.known(y) and len(x.sh) == 1 and len(y.sh) == 1:
            return O.reshape(O.mm2(O.expand(x, 0), O.expand(y, 1), m), [])
        if O.known(x) and O.known(y) and len(x.sh) >= 2 and len(y.sh) == 1:
            r = O.mm2(x, O.expand(y, 1), m)
            return O.vsum(r, [len(r.sh) - 1]) if O.known(r) else r
        if O.known(x) and O.known(y) and len(y.sh) >= 2 and len(x.sh) == 1:
            r = O.mm2(O.expand(x, 0), y, m)
            return O.vsum(r, [len(r.sh) - 2]) if O.known(r) else r
        return O.mm2(x, y, m)

    r = mul(a, b)
    if len(vs) > 2:
        r = mul(r, _tr(vs[2], kw.get("tr_c")))
    return r


@fn("B.outer", "np.outer")
def f_outer(I, st, args, kw, node):
    a = av(I, st, args[0])
    b = av(I, st, args[1]) if len(args) > 1 else a
    if not O.known(a) or not O.known(b):
        return V(u=umul(a.u, b.u), lo=None, w=Z if O.zero_w(a.w) and O.zero_w(b.w) else None, tags=O.tags(a, b))
    if a.sh == () or b.sh == ():
        return O.vmul(a, b)
    up = lambda v: O.expand(v, 1) if len(v.sh) == 1 else v
    return O.mm2(up(a), O.transpose(up(b)), I.loc(node))


@fn("B.chol", "B.cholesky", "np.linalg.cholesky")
def f_chol(I, st, args, kw, node):
    return O.chol(av(I, st, args[0]))


@fn("B.cholsolve")
def f_cholsolve(I, st, args, kw, node):
    L, x = av(I, st, args[0]), av(I, st, args[1])
    if x.sh == ():
        if x.is_const and x.c == 0 or x.nf is not None and not x.nf.t:
            n = L.sh[-1] if O.known(L) and L.sh else O.fresh_unknown()
            return V(u=ANY, lo=(), sh=(n, ONE), w=Z, nf=NF(), tags=O.tags(L, x))
        return O.vmul(O.inv(O.cholarg(L) or O.mm2(L, O.transpose(L), "")), x)
    return O.cholsolve(L, x, I.loc(node))


@fn("B.pd_inv", "np.linalg.inv", "B.inv")
def f_pd_inv(I, st, args, kw, node):
    return O.inv(av(I, st, args[0]))


@fn("B.trisolve", "B.triangular_solve", "B.solve", "np.linalg.solve")
def f_trisolve(I, st, args, kw, node):
    return O.trisolve(av(I, st, args[0]), av(I, st, args[1]), I.loc(node))


@fn("B.logdet")
def f_logdet(I, st, args, kw, node):
    return O.logdet(av(I, st, args[0]))


@fn("B.trace", "np.trace")
def f_trace(I, st, args, kw, node):
    return O.trace(av(I, st, args[0]))


@fn("B.diag", "np.diag", "matrix.Diagonal", "B.diag_extract", "B.diag_construct")
def f_diag(I, st, args, kw, node):
    v = av(I, st, args[0])
    if O.known(v) and len(v.sh) == 1:
        return O.diag_mat(v)
    return O.diag_of(v)


@fn("matrix.LowRank")
def f_lowrank(I, st, args, kw, node):
    l = av(I, st, kw.get("left", args[0] if args else None))
    r = av(I, st, kw["right"]) if "right" in kw else l
    return O.mm2(l, O.transpose(r), I.loc(node))


@fn("B.iqf")
def f_iqf(I, st, args, kw, node):
    P, a = av(I, st, args[0]), av(I, st, args[1])
    b = av(I, st, args[2]) if len(args) > 2 else a
    m = I.loc(node)
    return O.mm2(O.transpose(a), O.mm2(O.inv(P), b, m), m)


@fn("B.svd", "np.linalg.svd")
def f_svd(I, st, args, kw, node):
    from .interp import Tup
    v = av(I, st, args[0])
    w = Z if O.zero_w(v.w) else None
    k = v.sh[-1] if O.known(v) and len(v.sh) >= 2 else None
    M = v.sh if k is not None else None
    key = None if v.nf is None else repr(v.nf)[:2000]
    U_ = V(u=U1, lo=(), sh=M, w=w, tags=O.tags(v))
    S = V(u=v.u, lo=(), sh=v.sh[:-1] if k is not None else None, w=w, tags=O.tags(v))
    return Tup([U_, S, U_])


@fn("matrix.structured")
def f_structured(I, st, args, kw, node):
    return num(False)


@fn("B.dtype", "B.promote_dtypes", "B.default_dtype", "np.dtype")
def f_dtype(I, st, args, kw, node):
    from .interp import EObj
    return EObj("dtype")


@fn("B.to_active_device", "B.device", "B.on_device")
def f_dev(I, st, args, kw, node):
    return args[0] if args else TOP()


@fn("B.toeplitz_solve", "B.cumsum", "np.cumsum", "np.diff", "B.diff", "np.gradient", "np.sort", "np.unique", "B.sort")
def f_seqop(I, st, args, kw, node):
    v = av(I, st, args[0])
    n = _callee(node)
    w = keepw(v) if n in ("sort", "unique") else Z if keepw(v) is not None and n in ("diff", "gradient") else (Z if O.zero_w(v.w) else None)
    sh = v.sh
    if n == "diff" and O.known(v) and len(v.sh) == 1:
        sh = (v.sh[0] - ONE,)
    if n == "unique":
        sh = (O.fresh_unknown(),)
    nf = None
    if n in ("sort", "diff") and v.nf is not None and O.known(v) and len(v.sh) == 1:
        nf = O.atom(f"{n}({v.nf})", sh).nf
        if n == "diff" and len(args) == 1:
            d = v.sh[0]
            nf = safe(lambda x, y: x - y, O.rearrange(v, "slice", f"1:{d}", sh[0], (ONE, d)), O.rearrange(v, "slice", f"0:{sh[0]}", sh[0], (NF(), sh[0])))
    return V(u=v.u, lo=v.lo, sh=sh, w=w, nf=nf, tags=O.tags(v), roots=frozenset())


# -- randomness
def seeded(I, st, v, node):
    l = _lib()
    if v is not None:
        x = l.asv(I, st, v)
        I.event("seed", node, id=l.idof(x), chance=bool(x.tags & {"clock", "entropy"}))


@fn("np.random.RandomState", "np.random.default_rng", "rng.RandomState", "rng.default_rng", "jax.random.PRNGKey")
def f_generator(I, st, args, kw, node):
    v = args[0] if args else kw.get("seed")
    seeded(I, st, v, node)
    if v is None or isinstance(v, V) and v.is_const and v.c is None:
        I.event("unseeded", node)
        return TOP().but(tags=frozenset({"entropy"}))
    return TOP()


@fn("B.create_random_state")
def f_create(I, st, args, kw, node):
    seed = kw.get("seed", args[1] if len(args) > 1 else None)
    seeded(I, st, seed, node)
    I.event("create_state", node, seed=C(seed, "?") if seed is not None else 0)
    c = C(seed, "?") if seed is not None else 0
    if isinstance(c, int):
        # States that are created from the same seed are the same.
        return V(tok=f"state created with seed {c} in {I.stage or 'the call'}", lo=None)
    return V(tok=I.newtok("create"), lo=None)


@fn("B.global_random_state")
def f_global(I, st, args, kw, node):
    if I.jit:
        I.event("jit_effect", node, what="reads the global random state")
    I.event("global_get", node)
    return V(tok=st.gtok, lo=None)


@fn("B.set_global_random_state")
def f_setglobal(I, st, args, kw, node):
    if I.jit:
        I.event("jit_effect", node, what="sets the global random state")
    v = args[0]
    tok = v.tok if isinstance(v, V) else None
    I.event("global_set", node, stale=tok in st.consumed if tok else None)
    st.gtok = tok if tok is not None else I.newtok("global")
    return num(None)


@fn("B.set_random_seed", "rng.seed")
def f_seed(I, st, args, kw, node):
    seeded(I, st, args[-1] if args else kw.get("seed"), node)
    st.gtok = I.newtok("seed")
    if I.jit:
        I.event("jit_effect", node, what="seeds global randomness")
    return num(None)


@fn("B.randn", "B.rand", "rng.randn", "rng.rand")
def f_randn(I, st, args, kw, node):
    from . import libep
    from .interp import Tup
    state, rest = libep.draw_state(I, st, args, kw, node)
    sh = _shape_args(I, st, rest)
    libep._eps[0] += 1
    x = O.atom(f"eps{libep._eps[0]}", sh).but(tags=frozenset(["rnd"])) if sh is not None and not any(isinstance(d, Bad) for d in [sh]) else V(u=U1, lo=(), w=Z, tags=frozenset(["rnd"]))
    if state is None:
        ref = rest[0] if rest else None
        plain = ref is None or (isinstance(ref, V) and ref.sh == () and (ref.ty == "int" or (ref.is_const and isinstance(ref.c, int))))
        np_ = plain or _callee(node) not in ("randn", "rand") or "random" in ast.unparse(node.func)
        if not np_ and isinstance(ref, V) and "np" in ref.tags:
            np_ = True
        libep.implicit(I, st, node, "np" if np_ else "jax")
        x = x.but(tags=x.tags | {"grnd:" + I.loc(node)})
        if np_ and I.jit:
            x = x.but(tags=x.tags | {"jrnd:" + I.loc(node)})
        return x
    return Tup([libep.explicit(I, st, state, node), x])


def all_tags(st, x, depth=0):
    from .interp import Tup, Seq, Ref, EObj
    if depth > 6:
        return frozenset()
    if isinstance(x, V):
        return x.tags
    if isinstance(x, Tup):
        return frozenset().union(*[all_tags(st, i, depth + 1) for i in x.items])
    if isinstance(x, Seq):
        return all_tags(st, x.elem, depth + 1)
    if isinstance(x, Ref):
        ob = st.heap.get(x.a)
        if ob is None or ob.kind == "env":
            return frozenset()
        out = frozenset()
        for k, v in ob.attrs.items():
            if k == "items" and isinstance(v, dict):
                for i in v.values():
                    out |= all_tags(st, i, depth + 1)
            elif k == "items" and isinstance(v, (list, tuple)):
                for i in v:
                    out |= all_tags(st, i, depth + 1)
            else:
                out |= all_tags(st, v, depth + 1) if not isinstance(v, (str, int, bool, type(None), dict)) else frozenset()
        return out
    if isinstance(x, EObj):
        out = frozenset()
        for v in x.f.values():
            if isinstance(v, (V, Tup, Seq, Ref, EObj)):
                out |= all_tags(st, v, depth + 1)
        return out
    return frozenset()


def jit_result(I, st, r, node):
    """The result of a traced function must not depend on randomness that was drawn globally
    while tracing, nor on the clock."""
    for t in sorted(all_tags(st, r)):
        if t.startswith("jrnd:"):
            I.event("jit_effect", node, what="returns a value that depends on global randomness drawn at " + t[5:])
    return r


@fn("B.sample")
def f_sample(I, st, args, kw, node):
    from . import libep
    args = list(args)
    state = None
    if args and isinstance(args[0], V) and args[0].tok is not None:
        state = args.pop(0)
    P = av(I, st, args[0])
    n = kw.get("num", args[1] if len(args) > 1 else num(1))
    a = [state, n] if state is not None else [n]
    return libep.sample_normal(I, st, None, P, a, {}, node)


@fn("rng.uniform", "rng.exponential", "rng.normal", "rng.gamma", "rng.rand", "rng.random", "rng.standard_exponential", "rng.random_sample")
def f_rng(I, st, args, kw, node):
    n = {"rand": "uniform", "random": "uniform", "random_sample": "uniform", "standard_exponential": "exponential"}.get(_callee(node), _callee(node))
    vs = [av(I, st, a) for a in args]
    vs += [av(I, st, kw[k]) for k in ("low", "high", "scale", "loc") if k in kw]
    u = U1
    for v in vs[:2]:
        u = uadd(u, v.u, I.loc(node))
    I.nlab += 1
    size = kw.get("size")
    d = O.atom(f"{n}{I.nlab}", (), "+" if n == "exponential" else "")
    ev = dict(kind_=n, args=tuple(vs))
    I.event("rng_draw", node, dist=n, args=[repr(v) for v in vs], name=f"{n}{I.nlab}")
    I.toklog.append((n, vs, f"{n}{I.nlab}", [f.where for f in I.stack]))
    nf = d.nf
    if n == "uniform":
        lo, hi = (vs + [num(0), num(1)])[:2] if len(vs) >= 2 else (num(0), vs[0]) if vs else (num(0), num(1))
        I.udraws = getattr(I, "udraws", {})
        I.udraws[f"{n}{I.nlab}"] = (lo, hi)
    elif vs:
        nf = safe(lambda x, y: x * y, nf, vs[0].nf)
    return V(u=u, lo=(), sh=() if size is None else None, w=Z, nf=nf if size is None else None, tags=frozenset(["rnd", "draw:" + n] + (["jrnd:" + I.loc(node)] if I.jit else [])))


@fn("rng.permutation", "rng.choice", "rng.randint", "rng.shuffle")
def f_perm(I, st, args, kw, node):
    v = av(I, st, args[0]) if args else TOP()
    d = O.vdim(v) if v.sh == () else (v.sh[0] if O.known(v) and v.sh else O.fresh_unknown())
    return V(u=U1, lo=(), sh=(d,), w=Z, tags=frozenset(["rnd"] + (["jrnd:" + I.loc(node)] if I.jit else [])), ty="int")


# -- spectra
def _freq(v, extra):
    return ("perm", "freq", extra)


def half(d):
    """Number of non-negative frequencies of a real signal."""
    return N.fn("floordiv", d, N.const(2)) + N.const(1) if not O.unknown_dim(d) and not even(d) else d.scale(Fraction(1, 2)) + N.const(1) if not O.unknown_dim(d) else O.fresh_unknown()


def even(d):
    return all(c.denominator == 1 and c % 2 == 0 and all(e.denominator == 1 and e > 0 for _, e in m) for m, c in d.t.items())


@fn("np.fft.fft", "np.fft.rfft", "scipy.fft.fft")
def f_fft(I, st, args, kw, node):
    v = av(I, st, args[0])
    I.event("fft", node, name=_callee(node))
    sh = v.sh if _callee(node) == "fft" else (half(v.sh[0]),) if O.known(v) and len(v.sh) == 1 else (O.fresh_unknown(),)
    nf = None
    if O.known(v) and (v.nf is not None or I.cfg.get("spectra")):
        I.nlab += 1
        nf = O.atom(f"{_callee(node)}({v.nf if v.nf is not None else '#%d' % I.nlab})", sh).nf
    return V(u=v.u, lo=(), sh=sh, w=Z if O.zero_w(v.w) else None, nf=nf, tags=O.tags(v), ty=("perm", "freq" if _callee(node) == "fft" else "rfreq", ()))


@fn("np.fft.ifft", "np.fft.irfft", "scipy.signal.hilbert")
def f_ifft(I, st, args, kw, node):
    v = av(I, st, args[0])
    return V(u=v.u, lo=(), sh=v.sh, w=Z if O.zero_w(v.w) else None, tags=O.tags(v))


@fn("np.fft.fftfreq", "np.fft.rfftfreq")
def f_fftfreq(I, st, args, kw, node):
    n = O.vdim(av(I, st, args[0]))
    r = _callee(node) == "rfftfreq"
    sh = (n,) if not r else (half(n),)
    v = O.atom(f"{_callee(node)}[{n}]", sh).but(ty=("perm", "rfreq" if r else "freq", ()))
    d = kw.get("d", args[1] if len(args) > 1 else None)
    if d is not None:
        v = O.vdiv(v, av(I, st, d))
    return v


def _shift(name):
    def f(I, st, args, kw, node):
        v = av(I, st, args[0])
        ty = O.permty(v)
        nf = O.rearrange(v, name, "", v.sh[0] if O.known(v) and len(v.sh) == 1 else None)
        if nf is None:
            nf = O.atom(f"{name}({v.nf})", v.sh).nf if v.nf is not None and O.known(v) else None
        return v.but(nf=nf, c=MISSING, roots=frozenset(), w=keepw(v), ty=("perm", ty[1], ty[2] + ((name,),)) if ty else None)
    return f


T["np.fft.fftshift"] = _shift("fftshift")
T["np.fft.ifftshift"] = _shift("ifftshift")


@fn("np.argsort", "B.argsort")
def f_argsort(I, st, args, kw, node):
    v = av(I, st, args[0])
    k = _lib().idxkey(v)
    if v.nf is not None:
        O.SORTS[f"argsort({k})"] = v.nf
    return V(u=U1, lo=(), sh=v.sh, w=Z if keepw(v) is not None else None, ty="int", nf=O.atom(f"argsort({k})", v.sh).nf if O.known(v) else None)


@fn("np.trapz", "np.trapezoid", "scipy.integrate.trapezoid", "scipy.integrate.simpson")
def f_trapz(I, st, args, kw, node):
    y = av(I, st, kw.get("y", args[0] if args else None))
    x = kw.get("x", args[1] if len(args) > 1 else None)
    x = av(I, st, x) if not isnone(x) else None
    dx = kw.get("dx")
    I.nlab += 1
    nm = f"trapz{I.nlab}"
    I.event("trapz", node, y=y, x=x, name=nm)
    u = umul(y.u, x.u) if x is not None else umul(y.u, av(I, st, dx).u) if dx is not None else y.u
    return O.atom(nm, ()).but(u=u, w=Z if O.zero_w(y.w) else None, tags=O.tags(y), ty=None)


@fn("np.correlate", "np.convolve")
def f_corr(I, st, args, kw, node):
    a, b = av(I, st, args[0]), av(I, st, args[1])
    return V(u=umul(a.u, b.u), lo=(), w=Z if O.zero_w(a.w) and O.zero_w(b.w) else None, sh=(O.fresh_unknown(),), tags=O.tags(a, b))


@fn("np.interp")
def f_interp(I, st, args, kw, node):
    x, xp, fp = [av(I, st, a) for a in args[:3]]
    return V(u=fp.u, lo=(), sh=x.sh, w=Z if O.zero_w(fp.w) else None, tags=O.tags(x, xp, fp))


@fn("np.all", "np.any", "B.all", "B.any", "np.allclose", "np.array_equal", "B.allclose")
def f_npall(I, st, args, kw, node):
    if _callee(node) in ("all", "any") and isinstance(args[0], V) and args[0].is_const and len(args) == 1:
        return num(bool(args[0].c))
    return V(u=U1, lo=(), sh=(), w=Z, ty="bool", tags=O.tags(*[a for a in args if isinstance(a, V)]) - {"lit"})


# -- builtins
@fn("builtins.len")
def f_len(I, st, args, kw, node):
    x = args[0]
    from .interp import EObj
    if isinstance(x, V) and x.is_const and isinstance(x.c, str):
        return num(len(x.c))
    if not isinstance(x, V):
        it = _lib().concrete_items(I, st, x)
        if it is not None:
            return num(len(it))
        s = _lib().to_seq(I, st, x, node)
        if s is not None and s.n is not None:
            return O.dimV(s.n)
        return V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=O.fresh_unknown())
    if O.known(x) and x.sh:
        return O.dimV(x.sh[0])
    return V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=O.fresh_unknown())


@fn("builtins.int", "builtins.float", "builtins.round", "builtins.bool", "np.float64", "np.float32", "np.int64")
def f_int(I, st, args, kw, node):
    n = _callee(node)
    v = av(I, st, args[0]) if args else num(0)
    if v.is_const and isinstance(v.c, (int, float, str)) and len(args) == 1:
        try:
            return num({"int": int, "float": float, "round": round, "bool": bool}.get(n, float)(v.c))
        except Exception:
            return TOP()
    if n == "bool":
        return V(u=U1, lo=(), sh=(), w=v.w, ty="bool", nf=None, tags=O.tags(v))
    if n in ("int", "round"):
        u = umerge_bad(U1, unone(v.u, I.loc(node) + ": integer"))
        nf = v.nf
        if nf is not None and v.ty != "int":
            s = repr(nf)
            if not (len(nf.t) == 1 and s.startswith(("ceil", "floor", "round"))):
                nf = safe(lambda x: N.fn("trunc", x), nf)
        return V(u=u, lo=(), sh=(), w=Z if O.zero_w(v.w) else None, ty="int", nf=nf, tags=O.tags(v))
    return v.but(roots=frozenset(), ty=None if v.ty == "int" else v.ty)


@fn("builtins.str", "builtins.repr")
def f_str(I, st, args, kw, node):
    from .interp import Ref, Fn
    x = args[0] if args else num("")
    if isinstance(x, V) and x.is_const:
        return num(str(x.c))
    if isinstance(x, Ref) and st.heap[x.a].kind == "inst":
        for m in ("__str__", "__repr__"):
            ms = I.prog.methods(st.heap[x.a].cls, m)
            if ms:
                return I.call(Fn(ms, None, x), [], {}, node, st)
    return V(ty="str", lo=None)


@fn("builtins.range")
def f_range(I, st, args, kw, node):
    from .interp import EObj
    a = list(args)
    if len(a) == 1:
        a = [num(0), a[0], num(1)]
    elif len(a) == 2:
        a = a + [num(1)]
    a = [av(I, st, x) for x in a]
    u = U1
    for x in a:
        u = umerge_bad(u, unone(x.u, I.loc(node)) if x.u not in (None, ANY) else U1)
    return EObj("range", a=a[0], b=a[1], s=a[2])


@fn("builtins.zip")
def f_zip(I, st, args, kw, node):
    from .interp import Tup, Seq, EObj
    k, xs = splat(I, st, args)
    lib = _lib()
    if k == "seq":
        # Transpose of a sequence of tuples.
        if isinstance(xs.elem, Tup):
            return Tup([Seq(e, xs.n, xs.lab) for e in xs.elem.items])
        return Seq(Seq(TOP()))
    its = [lib.concrete_items(I, st, x) for x in xs]
    if all(i is not None for i in its):
        return Tup([Tup(t) for t in zip(*its)])
    ss = [lib.to_seq(I, st, x, node) or Seq(TOP()) for x in xs]
    lab = I.label()
    n = next((s.n for s in ss if s.n is not None and not unknown_dim(s.n)), None)
    el = [relabel(s.elem, s.lab, lab) for s in ss]
    return Seq(Tup(el), n, lab, frozenset().union(*[s.roots for s in ss]))


def relabel(e, old, new):
    from .interp import Tup
    if old is None:
        return e
    if isinstance(e, V):
        f = lambda x: x.relabel(old, new)
        return e.but(nf=safe(f, e.nf), w=safe(f, e.w), tags=frozenset("idx:" + new if t == "idx:" + old else t for t in e.tags))
    if isinstance(e, Tup):
        return Tup([relabel(x, old, new) for x in e.items])
    return e


@fn("builtins.enumerate")
def f_enumerate(I, st, args, kw, node):
    from .interp import Tup, Seq
    lib = _lib()
    it = lib.concrete_items(I, st, args[0])
    if it is not None and len(it) <= 40:
        return Tup([Tup([num(i), x]) for i, x in enumerate(it)])
    s = lib.to_seq(I, st, args[0], node) or Seq(TOP())
    lab = s.lab or I.label()
    i = V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym("#" + lab, 0, "+"), tags=frozenset(["idx:" + lab]))
    return Seq(Tup([i, s.elem]), s.n, lab, s.roots)


@fn("builtins.sum")
def f_bsum(I, st, args, kw, node):
    from .interp import Seq
    lib = _lib()
    it = lib.concrete_items(I, st, args[0]) if not isinstance(args[0], V) else None
    start = args[1] if len(args) > 1 else kw.get("start", num(0))
    if it is not None and len(it) <= 60:
        r = start
        for x in it:
            r = lib.binop(I, st, "Add", r, x, node)
        return r
    s = lib.to_seq(I, st, args[0], node)
    if s is None or not isinstance(s.elem, V):
        return TOP()
    v = O.stack_seq(s.elem, s.n, s.lab, 0)
    r = O.vsum(v, [0])
    return lib.binop(I, st, "Add", start, r, node) if not (isinstance(start, V) and C(start) == 0) else r


@fn("builtins.any", "builtins.all")
def f_any(I, st, args, kw, node):
    n = _callee(node)
    it = _lib().concrete_items(I, st, args[0])
    if it is not None:
        ts = [I.truth(x, st) for x in it]
        if n == "any":
            if any(t is True for t in ts):
                return num(True)
            if all(t is False for t in ts):
                return num(False)
        else:
            if any(t is False for t in ts):
                return num(False)
            if all(t is True for t in ts):
                return num(True)
    return V(u=U1, lo=(), sh=(), w=Z, ty="bool")


@fn("builtins.map", "builtins.filter")
def f_map(I, st, args, kw, node):
    from .interp import Tup, Seq
    lib = _lib()
    n = _callee(node)
    its = [lib.concrete_items(I, st, a) for a in args[1:]]
    if all(i is not None and len(i) <= 200 for i in its):
        out = []
        for xs in zip(*its):
            r = I.call(args[0], list(xs), {}, node, st) if not isnone(args[0]) else xs[0]
            if n == "map":
                out.append(r)
            else:
                t = I.truth(r, st)
                if t is None:
                    return Seq(TOP())
                if t:
                    out.append(xs[0])
        return Tup(out)
    ss = [lib.to_seq(I, st, a, node) or Seq(TOP()) for a in args[1:]]
    if n == "filter":
        return Seq(ss[0].elem, None, None, ss[0].roots)
    lab = ss[0].lab if len(ss) == 1 else I.label()
    el = [relabel(s.elem, s.lab, lab) if lab else s.elem for s in ss]
    return Seq(I.call(args[0], el, {}, node, st), ss[0].n, lab)


@fn("builtins.reversed")
def f_reversed(I, st, args, kw, node):
    from .interp import Tup, Seq
    it = _lib().concrete_items(I, st, args[0])
    if it is not None:
        return Tup(list(reversed(it)))
    s = _lib().to_seq(I, st, args[0], node) or Seq(TOP())
    return Seq(s.elem, s.n, None, s.roots)


@fn("builtins.sorted")
def f_sorted(I, st, args, kw, node):
    from .interp import Seq
    lib = _lib()
    it = lib.concrete_items(I, st, args[0])
    if it is not None:
        key = kw.get("key")
        ks = [I.call(key, [x], {}, node, st) if not isnone(key) else x for x in it]
        if all(isinstance(k, V) and k.is_const for k in ks):
            try:
                o = sorted(range(len(it)), key=lambda i: ks[i].c, reverse=bool(C(kw.get("reverse"), False)))
                return I.new(st, "list", None, items=tuple(it[i] for i in o))
            except TypeError:
                pass
        return I.new(st, "list", None, items=tuple(it))
    s = lib.to_seq(I, st, args[0], node) or Seq(TOP())
    return I.new(st, "list", None, items=None, seq=Seq(s.elem, s.n, None))


@fn("builtins.tuple")
def f_tuple(I, st, args, kw, node):
    from .interp import Tup, Seq
    if not args:
        return Tup([])
    it = _lib().concrete_items(I, st, args[0])
    return Tup(it) if it is not None else (_lib().to_seq(I, st, args[0], node) or Seq(TOP()))


@fn("builtins.list")
def f_list(I, st, args, kw, node):
    from .interp import Seq
    if not args:
        return I.new(st, "list", None, items=())
    it = _lib().concrete_items(I, st, args[0])
    if it is not None:
        return I.new(st, "list", None, items=tuple(it))
    s = _lib().to_seq(I, st, args[0], node) or Seq(TOP())
    return I.new(st, "list", None, items=None, seq=Seq(s.elem, s.n, s.lab))


@fn("builtins.set", "builtins.frozenset")
def f_set(I, st, args, kw, node):
    lib = _lib()
    if not args:
        return I.new(st, "set", None, items=())
    it = lib.concrete_items(I, st, args[0])
    if it is not None:
        return I.new(st, "set", None, items=tuple(lib.dedupe(I, st, it, node)))
    s = lib.to_seq(I, st, args[0], node)
    return I.new(st, "set", None, items=None, seq=s)


@fn("builtins.dict", "collections.OrderedDict")
def f_dict(I, st, args, kw, node):
    d = dict(kw)
    if args:
        it = _lib().concrete_items(I, st, args[0])
        from .interp import Tup, Ref
        if isinstance(args[0], Ref) and st.heap[args[0].a].kind == "dict":
            src = st.heap[args[0].a].attrs.get("items")
            if isinstance(src, dict):
                return I.new(st, "dict", None, items=dict(src, **kw))
            return I.new(st, "dict", None, items=None, elem=st.heap[args[0].a].attrs.get("elem"))
        if it is not None and all(isinstance(x, Tup) and len(x.items) == 2 and isinstance(x.items[0], V) and x.items[0].is_const for x in it):
            return I.new(st, "dict", None, items=dict({x.items[0].c: x.items[1] for x in it}, **kw))
        return I.new(st, "dict", None, items=None)
    return I.new(st, "dict", None, items=d)


@fn("builtins.dict.fromkeys")
def f_fromkeys(I, st, args, kw, node):
    lib = _lib()
    it = lib.concrete_items(I, st, args[0])
    if it is None:
        return I.new(st, "list", None, items=None, seq=lib.to_seq(I, st, args[0], node))
    return I.new(st, "list", None, items=tuple(lib.dedupe(I, st, it, node)))


@fn("builtins.isinstance", "plum.isinstance")
def f_isinstance(I, st, args, kw, node):
    from .interp import Tup
    v, t = args[0], args[1]
    ts = list(t.items) if isinstance(t, Tup) else [t]
    rs = [isinst(I, st, v, x) for x in ts]
    if any(r is True for r in rs):
        return num(True)
    if all(r is False for r in rs):
        return num(False)
    return V(u=U1, lo=(), sh=(), w=Z, ty="bool")


def isinst(I, st, v, t):
    from .interp import Ext, ClsV, Ref, Tup, EObj
    if isinstance(t, ClsV):
        if isinstance(v, Ref) and st.heap[v.a].kind == "inst":
            return t.cls in I.prog.mro(st.heap[v.a].cls)
        if isinstance(v, V) and not v.is_const and v.sh is None and v.u is None:
            return None
        return False
    if not isinstance(t, Ext):
        return None
    n = t.path.split(".")[-1]
    if isinstance(v, Ref):
        k = st.heap[v.a].kind
        if n in ("list", "dict", "set"):
            return k == n
        return False if n in ("tuple", "str", "int", "float", "bool", "Number", "Numeric", "ndarray") else None
    if isinstance(v, Tup):
        return n == "tuple" if n in ("tuple", "list", "str", "int", "float", "bool", "Number", "Numeric", "dict", "set") else None
    if not isinstance(v, V):
        return False if n in ("str", "int", "float", "bool", "Number", "Numeric", "list", "tuple", "dict") else None
    if v.is_const:
        m = {"Number": (int, float), "Numeric": (int, float), "int": int, "float": float, "bool": bool, "str": str, "tuple": tuple, "list": list, "dict": dict, "Int": int, "Float": float, "ndarray": (), "set": (), "NoneType": type(None)}
        if n in m:
            return isinstance(v.c, m[n])
        return None
    if v.tok is not None:
        return False
    if v.ty == "str":
        return n == "str" if n in ("str", "int", "float", "Number", "Numeric", "list", "tuple") else None
    if v.nf is None and v.sh is None and v.u is None:
        return None
    if n in ("str", "list", "tuple", "dict", "set"):
        return False
    if n == "Numeric":
        return True
    if n == "bool":
        return None if v.ty == "bool" else False
    if n in ("int", "Int"):
        return True if v.ty == "int" else (None if v.ty == "bool" else False)
    if n in ("Number", "float", "Float"):
        if v.ty == "int":
            return n == "Number"
        if v.sh == () and "num" in v.tags:
            return True
        return False
    return None


@fn("builtins.getattr")
def f_getattr(I, st, args, kw, node):
    n = C(args[1])
    if isinstance(n, str):
        if len(args) > 2:
            r = T["builtins.hasattr"](I, st, args[:2], {}, node)
            if r.is_const and not r.c:
                return args[2]
        return I.getattr(args[0], n, st, node)
    I.unsup("getattr")
    return TOP()


@fn("builtins.hasattr")
def f_hasattr(I, st, args, kw, node):
    from .interp import Ref
    n = C(args[1])
    if isinstance(args[0], Ref) and isinstance(n, str) and st.heap[args[0].a].kind in ("inst", "ns"):
        o = st.heap[args[0].a]
        if n in o.attrs:
            return num(True)
        if o.cls is not None and (I.prog.methods(o.cls, n) or I.prog.class_const(o.cls, n) is not None):
            return num(True)
        if o.cls is not None and I.lib.inst_attr(I, st, args[0], o, n, node) is not None:
            return num(True)
        return num(o.cls is not None and I.class_state(o.cls, n, st) is not None)
    from .interp import ClsV
    if I.cfg.get("persist") and isinstance(args[0], ClsV) and isinstance(n, str):
        c = args[0].cls
        if I.prog.methods(c, n) or I.prog.class_const(c, n) is not None or I.class_state(c, n, st) is not None:
            return num(True)
        if not n.startswith("__") and not _lib().lenient_class(I, c):
            return num(False)
        # A class of a library.
        if n.startswith("_") and not n.startswith("__"):
            return num(False)
    return V(u=U1, lo=(), sh=(), w=Z, ty="bool")


@fn("builtins.setattr")
def f_setattr(I, st, args, kw, node):
    n = C(args[1])
    if isinstance(n, str):
        I.setattr(args[0], n, args[2], st, node)
    return num(None)


@fn("builtins.id")
def f_id(I, st, args, kw, node):
    from .interp import Ref
    l = _lib()
    x = args[0] if args else None
    return V(u=U1, lo=(), sh=(), w=Z, ty="int", ld=l.opid("id", I.cfg.get("process"), x.a if isinstance(x, Ref) else l.idof(x)))


def hash_id(I, st, x, node):
    """Identifier of the hash of a value."""
    from .interp import Ref, Tup, AbsRaise
    l = _lib()
    if isinstance(x, Tup):
        return l.opid("hash", "tuple", *[hash_id(I, st, i, node) for i in x.items])
    if isinstance(x, Ref):
        ob = st.heap[x.a]
        if ob.kind == "set":
            it = ob.attrs.get("items")
            return l.opid("hash", "set", *sorted(hash_id(I, st, i, node) for i in it)) if it is not None else l.opid("hash", x.a)
        if ob.kind in ("list", "dict"):
            raise AbsRaise("TypeError")
        if ob.kind == "inst":
            if I.prog.methods(ob.cls, "__hash__"):
                return l.idof(l.asv(I, st, I.call(I.getattr(x, "__hash__", st, node), [], {}, node, st)))
            if I.prog.methods(ob.cls, "__eq__"):
                raise AbsRaise("TypeError")
        return l.opid("hash", x.a)
    if isinstance(x, V) and x.is_const and isinstance(x.c, (int, float, complex, Fraction)):
        return l.opid("hash", l.idof(x))
    return l.opid("hash", I.cfg.get("process"), l.idof(x))  # Differs between processes.


@fn("builtins.hash")
def f_hash(I, st, args, kw, node):
    ld = hash_id(I, st, args[0], node) if args else None
    return V(u=U1, lo=(), sh=(), w=Z, ty="int", ld=ld)


@fn("builtins.slice")
def f_slice(I, st, args, kw, node):
    from .interp import EObj
    a = list(args)
    if len(a) == 1:
        a = [num(None), a[0]]
    a = a + [num(None)] * (3 - len(a))
    return EObj("slice", lo=a[0], hi=a[1], step=a[2])


@fn("builtins.type")
def f_type(I, st, args, kw, node):
    from .interp import Ref, ClsV
    if args and isinstance(args[0], Ref) and st.heap[args[0].a].kind == "inst":
        return ClsV(st.heap[args[0].a].cls)
    return TOP()


@fn("builtins.iter", "builtins.next_")
def f_iter(I, st, args, kw, node):
    return args[0]


@fn("builtins.next")
def f_next(I, st, args, kw, node):
    s = _lib().to_seq(I, st, args[0], node)
    return s.elem if s is not None else TOP()


@fn("builtins.callable")
def f_callable(I, st, args, kw, node):
    from .interp import Fn, Ext, ClsV
    return num(isinstance(args[0], (Fn, Ext, ClsV)))


@fn("functools.reduce")
def f_reduce(I, st, args, kw, node):
    lib = _lib()
    it = lib.concrete_items(I, st, args[1])
    if it is None:
        s = lib.to_seq(I, st, args[1], node)
        e = s.elem if s is not None else TOP()
        r = I.call(args[0], [args[2] if len(args) > 2 else e, e], {}, node, st)
        return r.but(nf=None, c=MISSING) if isinstance(r, V) else r
    if len(args) > 2:
        r = args[2]
    else:
        if not it:
            from .interp import AbsRaise
            raise AbsRaise("TypeError")
        r, it = it[0], it[1:]
    for x in it:
        r = I.call(args[0], [r, x], {}, node, st)
    return r


@fn("functools.partial")
def f_partial(I, st, args, kw, node):
    from .interp import EObj
    return EObj("partial", fn=args[0], args=tuple(args[1:]), kw=tuple(kw.items()))


@fn("functools.wraps")
def f_wraps(I, st, args, kw, node):
    from .interp import Ext
    return Ext("identity")


@fn("identity")
def f_identity(I, st, args, kw, node):
    return args[0]


@fn("collections.namedtuple")
def f_nt(I, st, args, kw, node):
    from .interp import EObj
    return EObj("ntcls", name=C(args[0], "?"))


@fn("types.SimpleNamespace")
def f_ns(I, st, args, kw, node):
    return I.new(st, "ns", None, **kw)


@fn("operator.itemgetter", "operator.attrgetter")
def f_itemgetter(I, st, args, kw, node):
    return TOP()


# -- libraries
@fn("varz.Vars")
def f_vars(I, st, args, kw, node):
    return I.new(st, "vs", None)


@fn("stheno.Normal", "stheno.jax.Normal")
def f_normal(I, st, args, kw, node):
    from . import libep
    vs = [av(I, st, a) for a in args]
    if len(vs) == 1:
        return libep.normal(num(0), vs[0])
    m, P = vs[:2]
    I.event("normal", node)
    return libep.normal(m, P)


@fn("stheno.GP", "stheno.jax.GP")
def f_gp(I, st, args, kw, node):
    from .interp import EObj
    k = args[-1] if args else kw.get("kernel")
    return EObj("gp", kern=k, cond=())


@fn("mlkernels.EQ", "stheno.EQ")
def f_eq(I, st, args, kw, node):
    from . import libep
    return libep.kernel("EQ")


@fn("mlkernels.Exp", "mlkernels.Matern12", "stheno.Exp", "stheno.Matern12")
def f_expk(I, st, args, kw, node):
    from . import libep
    return libep.kernel("Exp")


@fn("varz.minimise_adam", "varz.minimise_l_bfgs_b", "varz.jax.minimise_adam", "varz.jax.minimise_l_bfgs_b")
def f_min(I, st, args, kw, node):
    from .interp import Tup
    obj, vs = args[0], args[1]
    extra = list(vs.items[1:]) if isinstance(vs, Tup) else []
    vsv = vs.items[0] if isinstance(vs, Tup) else vs
    names = kw.get("names")
    I.epoch += 1
    I.event("minimise", node, fn=_callee(node), names=names_of(I, st, names), iters=kw.get("iters"), jit=C(kw.get("jit"), None), has_names=names is not None)
    val = TOP()
    for k in range(2):
        # The first evaluation initialises all variables; further ones are traced.
        if k:
            I.jit.append(I.addr)
            I.jitkeep.append(obj)
            I.jitfns.append(("objective", id(obj)))
        I.cfg["objective"] = I.cfg.get("objective", 0) + 1
        try:
            r = I.call(obj, [vsv] + extra, {}, node, st)
            if k:
                r = jit_result(I, st, r, node)
        finally:
            if k:
                I.jit.pop()
                I.jitfns.pop()
            I.cfg["objective"] -= 1
        if extra:
            if not isinstance(r, Tup) or len(r.items) != 1 + len(extra):
                I.event("objective_arity", node, got=len(r.items) if isinstance(r, Tup) else 1, want=1 + len(extra))
                return Tup([TOP()] * (1 + len(extra)))
            val, extra = r.items[0], list(r.items[1:])
        else:
            val = r.items[0] if isinstance(r, Tup) and r.items else r
        I.event("objective_value", node, tags=tuple(sorted(val.tags)) if isinstance(val, V) else (), extra=tuple(tuple(sorted(e.tags)) if isinstance(e, V) else () for e in extra))
        I.objvals = getattr(I, "objvals", [])
        I.objvals.append(val)
        I.objdraws = getattr(I, "objdraws", [])
        I.objdraws.append(len(I.cfg.get("drawlog", ())))
    I.epoch += 1
    if extra:
        return Tup([val] + extra)
    return val


def names_of(I, st, x):
    if isnone(x):
        return None
    it = _lib().concrete_items(I, st, x)
    if it is None:
        return "?"
    return tuple(C(i, "?") if isinstance(i, V) else "?" for i in it)


@fn("warnings.warn", "builtins.print", "time.sleep", "matplotlib.pyplot.show")
def f_none(I, st, args, kw, node):
    if I.jit and _callee(node) in ("warn", "print"):
        I.event("jit_effect", node, what="does input or output")
    return num(None)


@fn("os.urandom", "os.getpid", "uuid.uuid4", "uuid.uuid1", "secrets.randbits", "secrets.token_bytes", "secrets.randbelow", "random.random", "random.uniform", "random.gauss", "random.normalvariate", "random.randint", "random.randrange", "random.choice", "random.getrandbits")
def f_entropy(I, st, args, kw, node):
    I.event("unseeded", node)
    return V(u=ANY, lo=(), sh=(), w=Z, tags=frozenset(["entropy"]))


@fn("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.time_ns", "time.perf_counter_ns", "time.monotonic_ns")
def f_time(I, st, args, kw, node):
    I.event("time", node)
    if I.jit:
        I.event("jit_effect", node, what="reads the clock")
    return V(u=ANY, lo=(), sh=(), w=Z, tags=frozenset(["clock"]))


@fn("builtins.open")
def f_open(I, st, args, kw, node):
    from .interp import EObj
    return EObj("noop", path=args[0] if args else kw.get("file"), mode=args[1] if len(args) > 1 else kw.get("mode", num("r")))


@fn("pickle.dump", "pickle.dumps")
def f_dump(I, st, args, kw, node):
    from .interp import EObj
    h = I.cfg.get("dump")
    if h is not None:
        h(args[0], args[1] if len(args) > 1 else None)
    return EObj("noop")


@fn("pickle.load", "pickle.loads")
def f_load(I, st, args, kw, node):
    h = I.cfg.get("pickled")
    return h(args[0]) if h is not None else TOP()


@fn("wbml.out.Progress", "wbml.out.Section", "wbml.out.out", "wbml.out.kv", "wbml.out.format")
def f_noop(I, st, args, kw, node):
    from .interp import EObj
    return EObj("noop")


def vmethod(I, st, o, name, args, kw, node):
    if name in ("flatten", "ravel"):
        r = O.reshape(o, ["-1"])
        return r.but(roots=o.roots if name == "ravel" else frozenset())
    if name in ("reshape",):
        return f_reshape(I, st, [o] + args, kw, node)
    if name in ("copy",):
        return o.but(roots=frozenset())
    if name == "astype" and O.known(o):
        d = lossy(args[0] if args else kw.get("dtype"))
        if d:
            return lowered(o, d)
    if name == "round":
        return O.vfun("round", o)
    if name in ("astype", "item", "tolist", "block_until_ready", "conj"):
        return o.but(roots=frozenset() if name == "astype" else o.roots)
    if name in ("sum", "mean"):
        return _red(I, st, [o] + args, kw, node, name == "mean")
    if name in ("min", "max"):
        return _ext(name)(I, st, [o] + args, kw, node)
    if name in ("std", "var"):
        return f_std(I, st, [o] + args, kw, node)
    if name in ("transpose",):
        if args:
            from .interp import Tup
            return f_transpose(I, st, [o, args[0] if len(args) == 1 and not isinstance(args[0], V) else Tup(args)], kw, node)
        return O.transpose(o, list(reversed(range(len(o.sh))))) if O.known(o) else o.but(nf=None)
    if name in ("dot",):
        return f_mm(I, st, [o] + args, kw, node)
    if name in ("squeeze",):
        return O.squeeze(o)
    if name in ("sort", "fill", "put", "resize", "itemset", "partition"):
        I.mutation(o, st, node, f"`{name}`")
        return num(None)
    if name == "any" or name == "all":
        return V(u=U1, lo=(), sh=(), w=Z, ty="bool")
    if name in ("argsort",):
        return f_argsort(I, st, [o], kw, node)
    if name == "sample":
        from . import libep
        return TOP(O.tags(o))
    return TOP(O.tags(o))


# -- decompositions
def _decomposition(kind):
    def f(I, st, args, kw, node):
        from .interp import Tup
        v = av(I, st, args[0])
        if not O.known(v) or len(v.sh) < 2:
            return unknown(I, st, kind, args, kw, node)
        if any(k in kw for k in ("compute_uv", "compute_eigvecs", "full_matrices")) or len(args) > 1:
            return unknown(I, st, kind, args, kw, node)
        tg = O.tags(v)
        vals = V(u=v.u, lo=(), sh=v.sh[:-2] + (v.sh[-1],), w=None, tags=tg)
        vecs = lambda d: V(u=U1, lo=(), sh=v.sh[:-2] + (d, v.sh[-1]), w=None, tags=tg)
        if kind == "svd":
            return Tup([vecs(v.sh[-2]), vals, vecs(v.sh[-1])]) if v.sh[-1] == v.sh[-2] else unknown(I, st, kind, args, kw, node)
        return Tup([vals, vecs(v.sh[-1])])
    return f


for _p in ("B.svd", "np.linalg.svd", "jnp.linalg.svd", "scipy.linalg.svd"):
    T[_p] = _decomposition("svd")
for _p in ("B.eig", "np.linalg.eigh", "np.linalg.eig", "scipy.linalg.eigh", "jnp.linalg.eigh"):
    T[_p] = _decomposition("eig")
