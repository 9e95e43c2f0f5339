"""Abstract values: a product of unit, log-offset, shape, shift-weight, normal form,
alias roots, random-state token and taint domains."""
from fractions import Fraction
from . import nf as N
from .nf import NF, TooBig

MISSING = type("MISSING", (), {"__repr__": lambda s: "MISSING"})()


class Bad:
    """A definite inconsistency, with its provenance. Sticky."""
    __slots__ = ("msg",)

    def __init__(self, msg):
        self.msg = msg

    def __repr__(self):
        return "BAD<" + self.msg + ">"

    def __eq__(self, o):
        return isinstance(o, Bad)

    def __hash__(self):
        return 7


ANY = "any"
U1 = ()  # Dimensionless.


def _unorm(d):
    return tuple(sorted(((k, e) for k, e in d.items() if isinstance(e, Bad) or e), key=lambda z: z[0]))


def umul(a, b, s=1):
    """Product of units; `s=-1` for the quotient. Bad exponents are sticky per base unit."""
    if a is None or b is None:
        return None
    if a == ANY or b == ANY:
        return ANY
    d = dict(a)
    for k, e in b:
        x = d.get(k, 0)
        d[k] = x if isinstance(x, Bad) else e if isinstance(e, Bad) else x + s * e
    return _unorm(d)


def upow(a, q):
    if a is None or a == ANY:
        return a
    return _unorm({k: (e if isinstance(e, Bad) else e * q) for k, e in a})


def uadd(a, b, msg):
    if a is None or a == ANY:
        return b
    if b is None or b == ANY:
        return a
    if a == b:
        return a
    d, e = dict(a), dict(b)
    out = {}
    for k in set(d) | set(e):
        x, y = d.get(k, Fraction(0)), e.get(k, Fraction(0))
        if isinstance(x, Bad) or isinstance(y, Bad):
            out[k] = x if isinstance(x, Bad) else y
        elif x != y:
            out[k] = Bad(f"{msg}: combines [{ustr(a)}] with [{ustr(b)}]")
        else:
            out[k] = x
    return _unorm(out)


def unone(a, msg):
    """Must be dimensionless."""
    if a is None or a == ANY:
        return U1
    return _unorm({k: (e if isinstance(e, Bad) else Bad(f"{msg}: needs a dimensionless argument, but it has unit [{ustr(a)}]")) for k, e in a})


def ubad(a, base):
    """The inconsistency of a unit in a base unit, if any."""
    if a is None or a == ANY:
        return None
    e = dict(a).get(base)
    return e if isinstance(e, Bad) else None


def umerge_bad(a, b):
    """Unit `a` with the inconsistencies of unit `b`."""
    if not b or b == ANY or a is None:
        return a
    bad = {k: e for k, e in b if isinstance(e, Bad)}
    if not bad:
        return a
    d = dict(a) if a != ANY else {}
    d.update(bad)
    return _unorm(d)


def ustr(u):
    if u is None:
        return "?"
    if u == ANY:
        return "any"
    return " ".join(k + ("" if e == 1 else f"^{e}") for k, e in u) or "1"


def U(**kw):
    return _unorm({k: Fraction(e) for k, e in kw.items()})


class V:
    """Abstract tensor, number or constant."""
    __slots__ = ("c", "u", "lo", "sh", "w", "nf", "roots", "tok", "ld", "tags", "ty", "flat", "tree")

    def __init__(self, c=MISSING, u=None, lo=(), sh=None, w=None, nf=None, roots=frozenset(), tok=None, ld=None, tags=frozenset(), ty=None):
        self.c, self.u, self.lo, self.sh, self.w, self.nf = c, u, lo, sh, w, nf
        self.roots, self.tok, self.ld, self.tags, self.ty = roots, tok, ld, tags, ty
        # What this is the flattened version of. It is only kept by elementwise operations.
        self.flat = None
        # What this is made of: ("cat", axis, values) or ("take", axis, indices, value), with negative axes.
        self.tree = None

    def __repr__(self):
        if self.c is not MISSING:
            return f"V({self.c!r})"
        return f"V(u={ustr(self.u)}, lo={self.lo}, sh={self.sh}, w={self.w}, nf={str(self.nf)[:80]}, roots={set(self.roots)}, tok={self.tok}, tags={set(self.tags)})"

    def but(self, **kw):
        d = {k: getattr(self, k) for k in V.__slots__ if k not in ("flat", "tree")}
        d.update(kw)
        v = V(**d)
        if not set(kw) - {"roots", "tags"}:
            v.flat, v.tree = self.flat, self.tree
        return v

    def key(self):
        return tuple(repr(getattr(self, k)) for k in V.__slots__)

    @property
    def is_const(self):
        return self.c is not MISSING


def TOP(tags=frozenset()):
    return V(tags=tags, lo=None)


def num(c):
    """Literal number."""
    if isinstance(c, bool) or c is None or isinstance(c, (str, bytes)) or c is Ellipsis:
        return V(c=c, u=U1 if isinstance(c, bool) else None, sh=() if isinstance(c, bool) else None, w=NF())
    if isinstance(c, complex):
        return V(c=c, u=U1, sh=(), w=NF())
    inf = c in (float("inf"), float("-inf")) or c != c
    tiny = not inf and (c == 0 or abs(c) <= 1e-20)
    return V(
        c=c, u=ANY if inf or tiny else U1, sh=(), w=None if inf else NF(),
        nf=None if inf else N.const(Fraction(c) if isinstance(c, int) else Fraction(repr(c))),
        ty="int" if isinstance(c, int) else "float", tags=frozenset(["lit"]),
    )


def shape_str(sh):
    return "?" if sh is None else repr(sh) if isinstance(sh, Bad) else "(" + ", ".join(map(str, sh)) + ")"


def dim(x):
    return N.const(x) if isinstance(x, int) else N.sym(x, 0, "+") if isinstance(x, str) else x


ONE = N.const(1)


def unknown_dim(d):
    return d is None or any(isinstance(a[1], str) and a[1].startswith("?") for a in d.atoms())


def dims_eq(a, b):
    """True, False, or None for unknown."""
    if a is None or b is None:
        return None
    if a == b:
        return True
    if unknown_dim(a) or unknown_dim(b):
        return None
    return False


def broadcast(a, b, msg):
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if a is None or b is None:
        return None
    if len(a) < len(b):
        a = (ONE,) * (len(b) - len(a)) + a
    if len(b) < len(a):
        b = (ONE,) * (len(a) - len(b)) + b
    out = []
    for x, y in zip(a, b):
        if x == ONE:
            out.append(y)
        elif y == ONE:
            out.append(x)
        else:
            e = dims_eq(x, y)
            if e is False:
                return Bad(f"{msg}: shapes {shape_str(a)} and {shape_str(b)} do not conform")
            out.append(x if e else (x if not unknown_dim(x) else y))
    return tuple(out)


# Log offsets: a dictionary from base unit to coefficient (normal form), frozen as tuple.
def lo_add(a, b, s=1):
    if a is None or b is None:
        return None
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if not a and not b:
        return ()
    d = dict(a)
    for k, x in b:
        d[k] = d.get(k, NF()) + x.scale(s)
    return tuple(sorted(((k, x) for k, x in d.items() if x.t), key=lambda z: z[0]))


def lo_scale(a, x):
    """Scale by a normal form `x` (or `None` if unknown)."""
    if not a:
        return a
    if isinstance(a, Bad):
        return a
    if x is None:
        return None
    try:
        return tuple((k, y * x) for k, y in a if (y * x).t)
    except TooBig:
        return None


def lo_of_unit(u, mult=ONE):
    if u is None:
        return None
    if u == ANY:
        return ()
    return tuple((k, mult.scale(e)) for k, e in u if not isinstance(e, Bad))


def safe(f, *args):
    try:
        if any(a is None for a in args):
            return None
        return f(*args)
    except TooBig:
        return None


def vjoin(a, b, fresh=None):
    """Join of two tensor values."""
    if a is b:
        return a
    out = V()
    out.c = a.c if (a.is_const and b.is_const and type(a.c) == type(b.c) and a.c == b.c) else MISSING
    if a.u == ANY:
        out.u = b.u
    elif b.u == ANY:
        out.u = a.u
    else:
        out.u = a.u if a.u == b.u else umerge_bad(umerge_bad((), a.u), b.u) or None
    out.lo = a.lo if a.lo == b.lo else None
    out.sh = a.sh if a.sh == b.sh else (a.sh if isinstance(a.sh, Bad) else b.sh if isinstance(b.sh, Bad) else None)
    if out.sh is None and isinstance(a.sh, tuple) and isinstance(b.sh, tuple) and len(a.sh) == len(b.sh):
        out.sh = tuple(x if x == y else fresh_dim(fresh, x, y) for x, y in zip(a.sh, b.sh))
    out.w = a.w if a.w == b.w else None
    out.nf = a.nf if a.nf == b.nf else None
    out.ty = a.ty if a.ty == b.ty else None
    if out.nf is None and a.nf is not None and b.nf is not None and out.ty == "int":
        out.nf = fresh_dim(fresh, a.nf, b.nf)
    out.roots = a.roots | b.roots
    out.ld = a.ld if a.ld == b.ld else ("join", a.ld, b.ld)
    out.tags = (a.tags | b.tags) - {"lit"} | (a.tags & b.tags & {"lit"})
    out.tok = a.tok if a.tok == b.tok else None
    return out


_phi = {}


def fresh_dim(fresh, x, y):
    k = tuple(sorted((repr(x), repr(y))))
    if k not in _phi:
        _phi[k] = N.sym(f"phi{len(_phi)}", 0, "+")
    return _phi[k]
