"""Semantics of library values and functions for the abstract interpreter."""
import ast
import math
from fractions import Fraction
from . import nf as N
from .nf import NF, TooBig
from .dom import *
from . import ops as O
from .ops import Z

CANON = [("lab.jax", "B"), ("lab.tensorflow", "B"), ("lab.torch", "B"), ("lab", "B"), ("jax.numpy.linalg", "np.linalg"), ("jax.numpy", "np"), ("numpy.random", "rng"), ("numpy", "np")]


def canon_path(p):
    if p in ("jax.numpy.asarray", "jax.numpy.copy"):
        return "np.array"  # Never an alias that can be modified.
    for a, b in CANON:
        if p == a:
            return b
        if p.startswith(a + "."):
            p = b + p[len(a):]
            break
    if p.startswith("np.random"):
        p = "rng" + p[len("np.random"):]
    return p


PI = O.atom("pi", (), "+")


def ext_attr(I, st, o, name):
    p = canon_path(o.path + "." + name)
    from .interp import Ext
    base, _, leaf = p.rpartition(".")
    if base in ("B", "np", "math"):
        if leaf == "pi":
            return PI
        if leaf in ("inf", "nan"):
            return num(float(leaf))
        if leaf == "log_2_pi":
            return O.vfun("log", O.vmul(num(2), PI))
        if leaf == "newaxis":
            return num(None)
        if leaf == "epsilon":
            return V(u=ANY, lo=(), sh=(), w=Z)
        if leaf == "e":
            return O.vfun("exp", num(1))
    return Ext(p)


# ---------------------------------------------------------------- conversions
def asv(I, st, x):
    """Convert to an abstract tensor."""
    from .interp import Tup, Seq, Ref
    if isinstance(x, V):
        return x
    items = concrete_items(I, st, x) if isinstance(x, (Tup, Ref)) else None
    if items is not None:
        if not items:
            return V(u=ANY, lo=(), sh=(NF(),), w=Z)
        vs = [asv(I, st, i) for i in items]
        return O.stack(vs, 0, "array")
    s = to_seq(I, st, x, None)
    if s is not None and isinstance(s.elem, V):
        return O.stack_seq(s.elem, s.n, s.lab, 0)
    return TOP()


def constint(v):
    """The integer that a value must be, if it is known."""
    if not isinstance(v, V):
        return None
    if v.is_const:
        return v.c if isinstance(v.c, int) and not isinstance(v.c, bool) else None
    k = v.nf.const() if v.nf is not None and v.sh == () else None
    return int(k) if k is not None and k.denominator == 1 else None


def concrete_items(I, st, x):
    from .interp import Tup, Ref, EObj
    if isinstance(x, Tup):
        return list(x.items)
    if isinstance(x, Ref):
        ob = st.heap[x.a]
        it = ob.attrs.get("items")
        if ob.kind == "set" and it is not None:
            if len(it) > 1 and I.cfg.get("setorder"):
                return [y for _, y in sorted(enumerate(it), key=lambda iy: (repr(content_key(st, iy[1])), iy[0]), reverse=I.cfg["setorder"] == "desc")]
            return list(it)
        if ob.kind == "list" and it is not None:
            return list(it)
        if ob.kind == "dict" and isinstance(it, dict):
            return [num(k) for k in it]
    if isinstance(x, V) and x.is_const and isinstance(x.c, str) and len(x.c) <= 40:
        return [num(c) for c in x.c]
    if isinstance(x, EObj) and x.kind == "nt":
        return list(x.f["items"].values())
    if isinstance(x, EObj) and x.kind == "range" and all(constint(v) is not None for v in (x.f["a"], x.f["b"], x.f["s"])):
        try:
            r = range(constint(x.f["a"]), constint(x.f["b"]), constint(x.f["s"]))
        except (TypeError, ValueError):
            return None
        if len(r) <= 12:
            return [num(i) for i in r]
    if isinstance(x, EObj) and x.kind == "array_iter":
        return None
    if isinstance(x, V) and isinstance(x.sh, tuple) and x.sh and not x.is_const:
        c = x.sh[0].const()
        if c is not None and c.denominator == 1 and 0 <= c <= 6 and x.tok is None:
            return [getitem(I, st, x, num(k), None) for k in range(int(c))]
    return None


def range_seq(I, x):
    from .interp import Seq
    lab = I.label()
    a, b = x.f["a"], x.f["b"]
    n = None
    if isinstance(b, V) and isinstance(a, V) and x.f["s"].is_const and x.f["s"].c == 1:
        if a.is_const and a.c == 0:
            n = O.vdim(b)
        else:
            d = O.vadd(b, a, -1)
            n = O.vdim(d)
    i = V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym("#" + lab, 0, "+"), tags=frozenset(["idx:" + lab]))
    if not (isinstance(a, V) and a.is_const and a.c == 0):
        i = O.vadd(a, i) if isinstance(a, V) else i.but(nf=None)
    return Seq(i, n, lab)


def to_seq(I, st, x, node):
    from .interp import Tup, Ref, EObj, Seq
    if isinstance(x, Seq):
        return x
    if isinstance(x, EObj) and x.kind == "range":
        return range_seq(I, x)
    if isinstance(x, EObj) and x.kind == "dictview":
        return Seq(x.f["elem"], None, None)
    items = concrete_items(I, st, x)
    if items is not None:
        if not items:
            return Seq(TOP(), NF(), None)
        e = items[0]
        for y in items[1:]:
            _, e = I.join_vals(st.copy(), e, st.copy(), y)
        return Seq(e, N.const(len(items)), None)
    if isinstance(x, Ref):
        ob = st.heap[x.a]
        s = ob.attrs.get("seq")
        if s is not None:
            return s
        return Seq(TOP())
    if isinstance(x, V) and isinstance(x.sh, tuple) and x.sh:
        lab = I.label()
        n = x.sh[0]
        e = O.take_label(x, 0, lab)
        if x.ty == "int":
            e = e.but(ty="int")
        return Seq(e, n, lab, x.roots)
    return None


def enter(I, st, v):
    return v


def note_order(I, st, e, v):
    pass


def unpack(I, st, v, n, node, starred=()):
    from .interp import Seq
    items = concrete_items(I, st, v)
    if items is not None:
        if starred:
            k = starred[0]
            m = len(items) - (n - 1)
            return items[:k] + [I.new(st, "list", None, items=tuple(items[k : k + m]))] + items[k + m :]
        if len(items) != n:
            I.event("unpack", node, n=len(items), want=n)
            from .interp import AbsRaise
            raise AbsRaise("ValueError")
        return items
    s = to_seq(I, st, v, node)
    if s is not None:
        if s.lab is None or not isinstance(s.elem, V):
            return [s.elem] * n
        out = []
        for k in range(n):
            f = lambda x: x.relabel(s.lab, f"@{k}")
            out.append(s.elem.but(nf=safe(f, s.elem.nf), w=safe(f, s.elem.w)))
        return out
    return [TOP(O.tags(v) if isinstance(v, V) else frozenset()) for _ in range(n)]


# ---------------------------------------------------------------- operators
PYOPS = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
    "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "Div": lambda a, b: a / b,
}


_ids = {}


def opid(*key):
    return _ids.setdefault(key, len(_ids))


def terms():
    """Identities to operations."""
    return {i: k for k, i in _ids.items()}


# Random states to how they were obtained.
TOKENS = {}


def tokid(t):
    return TOKENS[t] if t in TOKENS else opid("tok", t)


def idof(x):
    from .interp import Tup, Seq, EObj, Ref
    if isinstance(x, V):
        if x.tok is not None:
            return opid("state", tokid(x.tok))
        if x.is_const:
            return opid("c", repr(x.c))
        return x.ld if x.ld is not None else opid("?", repr(x.nf))
    if isinstance(x, Tup):
        return opid("tup", *[idof(i) for i in x.items])
    if isinstance(x, EObj):
        if x.kind == "slice":
            return opid("slice", *[idof(x.f[k]) for k in ("lo", "hi", "step")])
        if x.kind == "star":
            return opid("star", idof(x.f["seq"].elem))
    if isinstance(x, Seq):
        return opid("seq", idof(x.elem))
    return opid("o", type(x).__name__)


def stamp(I, r, *key):
    """Record the tree of floating-point operations."""
    if isinstance(r, V) and not r.is_const:
        r.ld = opid(*key)
    return r


def binop(I, st, op, a, b, node):
    r = binop_(I, st, op, a, b, node)
    if I.cfg.get("optree") and isinstance(r, V) and not r.is_const and (isinstance(a, V) or isinstance(b, V)):
        # Addition and multiplication of two numbers commute in floating point.
        i, j = idof(a), idof(b)
        if op in ("Add", "Mult"):
            i, j = sorted((i, j), key=repr)
        return r.but(ld=opid(op, i, j))
    return r


def binop_(I, st, op, a, b, node):
    from .interp import Tup, Seq, Ref, EObj, Fn
    from . import libep
    msg = I.loc(node)
    if isinstance(a, EObj) or isinstance(b, EObj):
        r = libep.binop(I, st, op, a, b, node)
        if r is not None:
            return r
    # Sequences.
    if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items)
    la, lb = islist(st, a), islist(st, b)
    if op == "Add" and (la or lb) and (la or isinstance(a, Tup)) and (lb or isinstance(b, Tup)):
        x, y = concrete_items(I, st, a), concrete_items(I, st, b)
        if x is not None and y is not None:
            return I.new(st, "list", None, items=tuple(x + y))
        s, t = to_seq(I, st, a, node), to_seq(I, st, b, node)
        _, e = I.join_vals(st.copy(), s.elem, st.copy(), t.elem)
        return I.new(st, "list", None, items=None, seq=Seq(e))
    if op == "Mult" and (la or isinstance(a, Tup)):
        x = concrete_items(I, st, a)
        if x is not None and isinstance(b, V) and b.is_const and isinstance(b.c, int) and b.c <= 40:
            return I.new(st, "list", None, items=tuple(x * b.c)) if la else Tup(x * b.c)
        s = to_seq(I, st, a, node)
        return I.new(st, "list", None, items=None, seq=Seq(s.elem if s else TOP(), O.vdim(b) if isinstance(b, V) and s is not None and s.n == ONE else None, None))
    if op in ("BitOr", "BitAnd", "Sub") and isset(st, a) and isset(st, b):
        x, y = concrete_items(I, st, a), concrete_items(I, st, b)
        if x is not None and y is not None:
            if op == "BitOr":
                r = dedupe(I, st, x + y, node)
            else:
                r = [i for i in x if any(eq_vals(I, st, i, j, node) is True for j in y) == (op == "BitAnd")]
            return I.new(st, "set", None, items=tuple(r))
        return TOP()
    if isinstance(a, Ref) and st.heap[a.a].kind == "inst":
        ms = I.prog.methods(st.heap[a.a].cls, DUNDER.get(op, "?"))
        if ms:
            return I.call(Fn(ms, None, a), [b], {}, node, st)
    if isinstance(b, Ref) and st.heap[b.a].kind == "inst":
        ms = I.prog.methods(st.heap[b.a].cls, DUNDER.get(op, "?").replace("__", "__r", 1))
        if ms:
            return I.call(Fn(ms, None, b), [a], {}, node, st)
    if not isinstance(a, V) and not (la or isinstance(a, (Tup, Seq))):
        return TOP(O.tags(b) if isinstance(b, V) else frozenset())
    if not isinstance(b, V) and not (lb or isinstance(b, (Tup, Seq))):
        return TOP(O.tags(a) if isinstance(a, V) else frozenset())
    a, b = asv(I, st, a), asv(I, st, b)
    if a.is_const and b.is_const and (isinstance(a.c, str) or isinstance(b.c, str)):
        try:
            return num(PYOPS[op](a.c, b.c))
        except Exception:
            return V(ty="str", lo=None)
    if a.ty == "str" or b.ty == "str" or (a.is_const and isinstance(a.c, str)) or (b.is_const and isinstance(b.c, str)):
        return V(ty="str", lo=None)
    if op == "Add":
        return O.vadd(a, b, 1, msg)
    if op == "Sub":
        return O.vadd(a, b, -1, msg)
    if op == "Mult":
        out = O.vmul(a, b, msg)
        return out.but(ty="bool") if a.ty == b.ty == "bool" and not out.is_const else out
    if op == "Div":
        return O.vdiv(a, b, msg)
    if op == "Pow":
        return O.vpow(a, b, msg)
    if op in ("FloorDiv", "Mod"):
        if a.is_const and b.is_const and O._numc(a.c) and O._numc(b.c) and b.c:
            return num(PYOPS[op](a.c, b.c))
        out = V(u=umul(a.u, b.u, -1) if op == "FloorDiv" else uadd(a.u, b.u, msg), lo=(), sh=broadcast(a.sh, b.sh, msg), tags=O.tags(a, b), ty="int" if a.ty == b.ty == "int" else None)
        out.w = Z if O.zero_w(a.w) and O.zero_w(b.w) else None
        out.nf = safe(lambda x, y: N.fn(op.lower(), x, y), a.nf, b.nf)
        if op == "FloorDiv" and a.ty == "int" and b.is_const and isinstance(b.c, int) and b.c > 0 and a.nf is not None and all(c.denominator == 1 and c % b.c == 0 and all(e.denominator == 1 and e > 0 for _, e in m) for m, c in a.nf.t.items()):
            out.nf = a.nf.scale(Fraction(1, b.c))
        return out
    if op == "MatMult":
        return O.mm2(a, b, msg)
    if op in ("BitAnd", "BitOr", "BitXor"):
        out = O.vmul(a, b, msg) if op == "BitAnd" and a.ty == b.ty == "bool" else V(u=U1, lo=(), sh=broadcast(a.sh, b.sh, msg), w=Z if O.zero_w(a.w) and O.zero_w(b.w) else None, tags=O.tags(a, b))
        return out.but(ty="bool", c=MISSING)
    return I.unsup("binop " + op, node)


DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Pow": "__pow__", "Div": "__truediv__", "MatMult": "__matmul__", "BitOr": "__or__"}


def islist(st, x):
    from .interp import Ref
    return isinstance(x, Ref) and st.heap[x.a].kind == "list"


def unop(I, st, op, v, node):
    from .interp import EObj, Ref, Fn
    from . import libep
    if op == "Not":
        t = I.truth(v, st)
        return num(not t) if t is not None else V(u=U1, lo=(), sh=(), w=v.w if isinstance(v, V) else None, ty="bool", tags=O.tags(v) if isinstance(v, V) else frozenset())
    if isinstance(v, EObj):
        r = libep.unop(I, st, op, v, node)
        if r is not None:
            return r
        return TOP()
    if isinstance(v, Ref) and st.heap[v.a].kind == "inst":
        ms = I.prog.methods(st.heap[v.a].cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
        if ms:
            return I.call(Fn(ms, None, v), [], {}, node, st)
    if not isinstance(v, V):
        return TOP()
    if op == "USub":
        r = O.vneg(v)
        return r.but(ld=opid("neg", idof(v))) if I.cfg.get("optree") and not r.is_const else r
    if op == "UAdd":
        return v
    if op == "Invert":
        if v.ty == "bool" and v.nf is not None:
            return v.but(nf=safe(lambda x: N.const(1) - x, v.nf), w=safe(lambda x: -x, v.w), roots=frozenset())
        return v.but(nf=None, roots=frozenset())
    return TOP()


def compare(I, st, op, a, b, node):
    from .interp import Tup, Ref, EObj, Seq, Ext, ClsV, PS
    msg = I.loc(node)
    if op in ("Is", "IsNot"):
        r = is_same(a, b)
        if r is None:
            return V(u=U1, lo=(), sh=(), ty="bool", w=Z)
        return num(r if op == "Is" else not r)
    if op in ("In", "NotIn") and isinstance(b, Ref) and st.heap[b.a].kind == "vs" and I.cfg.get("vsw") is not None:
        r = I.cfg["vsw"].has(a)
        return num(r if op == "In" else not r) if r is not None else V(u=U1, lo=(), sh=(), ty="bool", w=Z)
    if op in ("In", "NotIn"):
        items = concrete_items(I, st, b) if not isinstance(b, V) or not (b.is_const and isinstance(b.c, str)) else None
        r = None
        if isinstance(b, V) and b.is_const and isinstance(b.c, str) and isinstance(a, V) and a.is_const:
            r = a.c in b.c
        elif isinstance(b, Ref) and st.heap[b.a].kind == "dict" and isinstance(st.heap[b.a].attrs.get("items"), dict) and isinstance(a, V) and a.is_const:
            r = a.c in st.heap[b.a].attrs["items"]
        elif items is not None:
            rs = [eq_vals(I, st, a, i, node) for i in items]
            r = True if any(q is True for q in rs) else False if all(q is False for q in rs) else None
        if r is None:
            return V(u=U1, lo=(), sh=(), ty="bool", w=Z)
        return num(r if op == "In" else not r)
    if op in ("Eq", "NotEq") and isinstance(a, Tup) and isinstance(b, Tup) and all(isinstance(x, V) for x in a.items + b.items):
        r = False if len(a.items) != len(b.items) else eq_vals(I, st, a, b, node)
        return num(r if op == "Eq" else not r) if r is not None else V(u=U1, lo=(), sh=(), ty="bool", w=Z, tags=frozenset(["sizes"]))
    if op in ("Eq", "NotEq") and isinstance(a, Ref) and isinstance(b, Ref) and st.heap[a.a].kind in ("set", "list", "dict"):
        r = eq_vals(I, st, a, b, node)
        return num(r if op == "Eq" else not r) if r is not None else V(u=U1, lo=(), sh=(), ty="bool", w=Z)
    if isinstance(a, Ref) and st.heap[a.a].kind == "inst" and op in ("Eq", "NotEq"):
        from .interp import Fn
        ms = I.prog.methods(st.heap[a.a].cls, "__eq__")
        if ms:
            r = I.call(Fn(ms, None, a), [b], {}, node, st)
            return r if op == "Eq" else unop(I, st, "Not", r, node)
    if isinstance(a, V) and isinstance(b, V):
        if a.is_const and b.is_const:
            try:
                r = {"Eq": lambda: a.c == b.c, "NotEq": lambda: a.c != b.c, "Lt": lambda: a.c < b.c, "LtE": lambda: a.c <= b.c, "Gt": lambda: a.c > b.c, "GtE": lambda: a.c >= b.c}[op]()
                return num(bool(r))
            except Exception:
                return V(u=U1, lo=(), sh=(), ty="bool", w=Z)
        for x, y in ((a, b), (b, a)):
            if x.is_const and (isinstance(x.c, str) or x.c is None):
                if y.ty == "str" or (y.sh is None and y.u is None):
                    return V(u=U1, lo=(), sh=(), ty="bool", w=Z)
                return num(op == "NotEq")
        if a.ty == "str" or b.ty == "str":
            return V(u=U1, lo=(), sh=(), ty="bool", w=Z)
        r = O.vcmp(op, a, b, msg)
        c = r.nf.const() if r.nf is not None else None
        if c is not None and r.sh == ():
            return num(bool(c))
        return r
    return V(u=U1, lo=(), sh=(), ty="bool", w=None)


def isset(st, x):
    from .interp import Ref
    return isinstance(x, Ref) and st.heap[x.a].kind == "set"


def content_key(st, x, depth=0):
    """Structural key of a value that consists of constants, or `None`."""
    from .interp import Ref, Tup
    if depth > 6:
        return None
    if isinstance(x, V):
        return ("c", type(x.c).__name__, x.c) if x.is_const else ("v", repr(x.nf)) if depth < 0 else None
    if isinstance(x, Tup):
        ks = [content_key(st, i, depth + 1) for i in x.items]
        return None if any(k is None for k in ks) else ("t", tuple(ks))
    if isinstance(x, Ref):
        o = st.heap[x.a]
        if o.kind == "inst":
            ks = [(n, content_key(st, v, depth + 1)) for n, v in sorted(o.attrs.items()) if not n.startswith("$")]
            return None if any(k is None for _, k in ks) else (o.cls.name, tuple(ks))
        if o.kind in ("set", "list") and o.attrs.get("items") is not None:
            ks = [content_key(st, i, depth + 1) for i in o.attrs["items"]]
            if any(k is None for k in ks):
                return None
            return (o.kind, tuple(sorted(ks, key=repr) if o.kind == "set" else ks))
    return None


def eq_vals(I, st, a, b, node):
    """Equality of values: True, False, or None."""
    from .interp import Ref, Tup, Fn
    if isinstance(a, V) and isinstance(b, V):
        if a.is_const and b.is_const:
            return bool(a.c == b.c)
        if a is b or a.nf is not None and b.nf is not None and a.sh == () == b.sh and a.nf == b.nf:
            return True
        return None
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        rs = [eq_vals(I, st, x, y, node) for x, y in zip(a.items, b.items)]
        return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True
    if not (isinstance(a, Ref) and isinstance(b, Ref)):
        return False if type(a) is not type(b) and not (isinstance(a, V) or isinstance(b, V)) else None
    if a.a == b.a:
        return True
    p, q = st.heap[a.a], st.heap[b.a]
    if p.kind != q.kind:
        return False
    ka, kb = content_key(st, a), content_key(st, b)
    cache = I.__dict__.setdefault("eqcache", {})
    k = (ka, kb) if ka is not None and kb is not None else None
    if k is not None and k in cache:
        return cache[k]
    r = None
    if p.kind == "inst":
        ms = I.prog.methods(p.cls, "__eq__")
        if ms:
            v = I.call(Fn(ms, None, a), [b], {}, node, st)
            r = I.truth(v, st)
        else:
            r = False
    elif p.kind in ("set", "list"):
        x, y = p.attrs.get("items"), q.attrs.get("items")
        if x is None or y is None:
            return None
        if len(x) != len(y):
            r = False
        elif p.kind == "list":
            rs = [eq_vals(I, st, i, j, node) for i, j in zip(x, y)]
            r = False if any(t is False for t in rs) else None if any(t is None for t in rs) else True
        else:
            r = True
            for i in x:
                rs = [eq_vals(I, st, i, j, node) for j in y]
                if any(t is True for t in rs):
                    continue
                if all(t is False for t in rs):
                    r = False
                    break
                r = None
    if k is not None:
        cache[k] = r
    return r


def dedupe(I, st, xs, node):
    out = []
    for x in xs:
        if not any(eq_vals(I, st, x, y, node) is True for y in out):
            out.append(x)
    return out


def is_same(a, b):
    na = isinstance(a, V) and a.is_const and a.c is None
    nb = isinstance(b, V) and b.is_const and b.c is None
    if na and nb:
        return True
    for p, q, nn in ((a, b, nb), (b, a, na)):
        if nn:
            if isinstance(p, V) and not p.is_const and p.sh is None and p.u is None and p.nf is None and p.ty is None and p.tok is None:
                return None
            return False
    if isinstance(a, V) and isinstance(b, V):
        if a.is_const and b.is_const:
            return type(a.c) == type(b.c) and a.c == b.c
        if a.is_const or b.is_const:
            x = b if a.is_const else a
            k = a if a.is_const else b
            if isinstance(k.c, bool) and x.ty is None and x.u is None:
                return None
            return False
        return None
    try:
        return a == b if type(a) is type(b) else False
    except Exception:
        return None


# ---------------------------------------------------------------- subscripts
def getitem(I, st, o, i, node):
    from .interp import Tup, Seq, Ref, EObj, PS, BMeth, ClsV, Ext
    if isinstance(o, PS):
        k = i.c if isinstance(i, V) and i.is_const else i.nf.const() if isinstance(i, V) and i.nf is not None and i.nf.const() is not None else "*"
        if isinstance(k, Fraction):
            k = int(k)
        return PS(o.path + (k,))
    if isinstance(o, (Tup,)):
        if isinstance(i, V) and i.is_const and isinstance(i.c, int):
            if -len(o.items) <= i.c < len(o.items):
                return o.items[i.c]
            return TOP()
        if isinstance(i, EObj) and i.kind == "slice":
            s = pyslice(i)
            if s is not None:
                return Tup(o.items[s])
        s = to_seq(I, st, o, node)
        return s.elem
    if isinstance(o, EObj) and o.kind == "nt":
        return getitem(I, st, Tup(list(o.f["items"].values())), i, node)
    if isinstance(o, Seq):
        if isinstance(i, EObj) and i.kind == "slice":
            return Seq(o.elem, None, o.lab)
        if isinstance(o.elem, V) and o.lab:
            k = str(i.c) if isinstance(i, V) and i.is_const else None
            lbl = f"@{k}" if k is not None else idx_label(i)
            if lbl:
                f = lambda x: x.relabel(o.lab, lbl)
                return o.elem.but(nf=safe(f, o.elem.nf), w=safe(f, o.elem.w))
            return o.elem.but(nf=None)
        return o.elem
    if isinstance(o, Ref):
        ob = st.heap[o.a]
        it = ob.attrs.get("items")
        if ob.kind == "list":
            if it is not None:
                r = getitem(I, st, Tup(it), i, node)
                if isinstance(i, EObj) and isinstance(r, Tup):
                    return I.new(st, "list", None, items=r.items)
                return r
            s = to_seq(I, st, o, node)
            if isinstance(i, EObj) and i.kind == "slice":
                return I.new(st, "list", None, items=None, seq=Seq(s.elem, None, s.lab))
            return getitem(I, st, s, i, node)
        if ob.kind == "dict":
            if isinstance(it, dict) and isinstance(i, V) and i.is_const:
                if i.c in it:
                    return it[i.c]
                I.event("no_key", node, key=i.c)
                return TOP()
            if isinstance(it, dict) and it:
                e = None
                for v in it.values():
                    e = v if e is None else I.join_vals(st.copy(), e, st.copy(), v)[1]
                return e
            return ob.attrs.get("elem") or TOP()
        if ob.kind == "vs":
            w = I.cfg.get("vsw")
            return w.get(I, st, i, node) if w is not None else TOP()
        if ob.kind == "inst":
            from .interp import Fn
            ms = I.prog.methods(ob.cls, "__getitem__")
            if ms:
                return I.call(Fn(ms, None, o), [i], {}, node, st)
        return TOP()
    if isinstance(o, V):
        r = vindex(I, st, o, i, node)
        if I.cfg.get("optree"):
            r = r.but(ld=opid("index", idof(o), idof(i)))
        return r
    if isinstance(o, Ext):
        return o
    return TOP()


def idx_label(i):
    for t in getattr(i, "tags", ()):
        if t.startswith("idx:"):
            return t[4:]
    return None


def pyslice(i):
    out = []
    for k in ("lo", "hi", "step"):
        v = i.f[k]
        if not (isinstance(v, V) and v.is_const and (v.c is None or isinstance(v.c, int))):
            return None
        out.append(v.c)
    return slice(*out)


def vindex(I, st, v, i, node):
    from .interp import Tup, EObj
    idx = list(i.items) if isinstance(i, Tup) else [i]
    if isinstance(v.sh, Bad):
        return v.but(nf=None, c=MISSING)
    if not known(v):
        ty = O.permty(v)
        if ty and len(idx) == 1 and isinstance(idx[0], V) and idx[0].ty in ("bool",) or ty:
            k = idxkey(idx[0])
            return v.but(sh=None, nf=None, w=v.w if O.zero_w(v.w) else None, c=MISSING, ty=("perm", ty[1], ty[2] + (("index", k),)))
        return v.but(sh=None, nf=None, w=v.w if v.w is not None and not v.w.free() else None, c=MISSING, ty=None)
    r = len(v.sh)
    n = sum(1 for x in idx if not (isinstance(x, V) and x.is_const and x.c is None) and not (isinstance(x, V) and x.is_const and x.c is Ellipsis))
    if any(isinstance(x, V) and x.is_const and x.c is Ellipsis for x in idx):
        k = next(j for j, x in enumerate(idx) if isinstance(x, V) and x.is_const and x.c is Ellipsis)
        idx = idx[:k] + [FULL] * (r - n) + idx[k + 1 :]
    else:
        idx = idx + [FULL] * (r - n)
    if n > r:
        return v.but(sh=Bad(f"{I.loc(node)}: too many indices for shape {shape_str(v.sh)}"), nf=None, c=MISSING)
    out = v.but(c=MISSING, ty=v.ty if v.ty == "int" or v.ty == "bool" else None)
    if isinstance(v.ty, tuple) and v.ty[0] == "perm":
        out.ty = None
    pos = 0
    for x in idx:
        if x is FULL:
            pos += 1
            continue
        if isinstance(x, V) and x.is_const and x.c is None:
            out = O.expand(out, pos)
            pos += 1
            continue
        if isinstance(x, EObj) and x.kind == "slice":
            out = slice_axis(I, out, pos, x, v, node)
            if isinstance(out.sh, Bad):
                return out
            pos += 1
            continue
        if isinstance(x, V) and (x.sh == () or (x.is_const and isinstance(x.c, int))):
            if x.is_const and len(idx) == 1 and isinstance(v.ty, tuple) and v.ty[0] == "cat" and (x.c in (0, -1) or I.cfg.get("spectra") and 0 < x.c < 3):
                return vindex(I, st, v.ty[1][0 if x.c > 0 else x.c], i, node)
            if out.sh[pos] == ONE:
                out = O.take_label(out, pos, "@0")
            else:
                lbl = f"@{x.c}" if x.is_const else idx_label(x)
                if lbl is None:
                    lbl = None
                if lbl:
                    out = O.take_label(out, pos, lbl)
                else:
                    z = O.zero_w(out.w) or (out.w is not None and not out.w.free())
                    w = out.w if z else None
                    out = O.take_label(out, pos, "@?").but(nf=None, w=w)
            continue
        # Advanced indexing along one axis: a mask or a permutation.
        x = asv(I, st, x)
        key = idxkey(x)
        d = fresh_unknown_named(key) if x.ty == "bool" else (x.sh[0] if isinstance(x.sh, tuple) and len(x.sh) == 1 else O.fresh_unknown())
        sh = out.sh[:pos] + (d,) + out.sh[pos + 1 :]
        ty = O.permty(v)
        nf = None
        if len(out.sh) == 1 and out.nf is not None and key is not None:
            nf = O.rearrange(out, "select" if x.ty == "bool" else "index", key, d, x)
            if nf is None:
                nf = O.atom(f"({out.nf})@({key})", (d,)).nf
        sel = selected_const(out, x)
        out = out.but(sh=sh, nf=nf, w=out.w if out.w is not None and not out.w.free() else None, roots=frozenset())
        if sel is not None:
            out = out.but(nf=N.const(sel), u=ANY if sel == 0 else out.u, w=Z if sel == 0 else out.w)
        if ty:
            out.ty = ("perm", ty[1], ty[2] + (("index", key),))
        pos += 1
    return out


def selected_const(v, mask):
    """The constant which `v` must be wherever `mask` holds, if any: `v[v == c]`."""
    if mask.nf is None or v.nf is None or len(mask.nf.t) != 1:
        return None
    (m, c), = mask.nf.t.items()
    if len(m) != 1 or m[0][0][0] != "f" or m[0][0][1] != "eq0":
        return None
    d = m[0][0][2][0]
    for s in (1, -1):
        k = (v.nf - d.scale(s)).const()
        if k is not None:
            return k
    return None


FULL = object()
known = O.known
_named = {}


def fresh_unknown_named(key):
    if key is None:
        return O.fresh_unknown()
    if key not in _named:
        _named[key] = N.sym("?m:" + key, 0, "+")
    return _named[key]


def idxkey(x):
    if isinstance(x, V):
        if x.nf is not None:
            return repr(x.nf)
        if isinstance(x.ty, tuple):
            return repr(x.ty)
    return None


def column(v, k):
    """Column `k` of a matrix; of an atom, it is an atom itself."""
    if v.nf is not None and len(v.nf.t) == 1:
        (m, c), = v.nf.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "s" and m[0][0][2] == (-2, -1):
            return O.atom(f"{m[0][0][1]}@{k}", (v.sh[0], ONE), "", v.u, v.w).but(tags=v.tags, roots=v.roots)
    return O.expand(O.take_label(v, 1, f"@{k}"), 1)


def slice_axis(I, v, pos, x, orig, node):
    lo, hi, step = x.f["lo"], x.f["hi"], x.f["step"]
    isnone = lambda y: isinstance(y, V) and y.is_const and y.c is None
    if isnone(lo) and isnone(hi) and isnone(step):
        return v
    r = len(v.sh)
    d = v.sh[pos]
    # `x[i : i + 1]` selects a single element.
    if isnone(lo) and isnone(step) and isinstance(hi, V) and hi.is_const and hi.c == 1:
        lo = num(0)
    if isinstance(lo, V) and isinstance(hi, V) and isnone(step) and lo.nf is not None and hi.nf is not None and not isnone(lo) and not isnone(hi):
        if (hi.nf - lo.nf).const() == 1:
            lbl = f"@{lo.c}" if lo.is_const else idx_label(lo)
            if d == ONE:
                return v
            if lo.is_const and "cols" in v.tags and pos == 1 and len(v.sh) == 2:
                return column(v, lo.c)
            if lbl:
                return O.expand(O.take_label(v, pos, lbl), pos)
    w = v.w if v.w is not None and not v.w.free() else None
    if O.zero_w(v.w):
        w = Z
    if d == ONE:
        return v
    perm = O.permty(orig)
    if not isnone(step):
        if step.is_const and step.c == -1 and isnone(lo) and isnone(hi):
            ty = ("perm", perm[1], perm[2] + (("reverse",),)) if perm else None
            return v.but(nf=O.rearrange(v, "reverse", "", d) if I.cfg.get("spectra") else None, w=w, ty=ty)
        return v.but(sh=v.sh[:pos] + (O.fresh_unknown(),) + v.sh[pos + 1 :], nf=None, w=w)
    def bound(y, default):
        if isnone(y):
            return default
        if isinstance(y, V) and y.is_const and isinstance(y.c, int):
            return N.const(y.c) if y.c >= 0 else d + N.const(y.c)
        if isinstance(y, V) and y.nf is not None and y.ty == "int" and I.cfg.get("spectra") and y.sh == ():
            return y.nf
        return None
    a, b = bound(lo, NF()), bound(hi, d)
    nd = O.fresh_unknown()
    if a is not None and b is not None and not unknown_dim(d):
        m = b - a
        c = m.const()
        if d.const() is not None and isnone(hi) is False and hi.is_const and hi.c is not None and hi.c > 0 and d.const() < hi.c:
            m = d - a
        # Slices beyond the end are clipped, so positive constant bounds are not certain for symbolic sizes.
        if not (not isnone(hi) and isinstance(hi, V) and hi.is_const and hi.c >= 0 and d.const() is None) and not unknown_dim(m):
            nd = m
    nf = None
    if I.cfg.get("parts") and d.const() is None and not isnone(hi) and isinstance(hi, V) and hi.is_const and isinstance(hi.c, int) and hi.c > 0:
        v = v.but(tags=v.tags | {f"part:{I.loc(node)}"})  # A fixed number of many.
    if I.cfg.get("spectra") and a is not None and b is not None:
        nf = O.rearrange(v, "slice", f"{a}:{b}", nd, (a, b))
    return v.but(sh=v.sh[:pos] + (nd,) + v.sh[pos + 1 :], nf=nf, w=w)


def setitem(I, st, o, i, v, node):
    from .interp import Ref
    if isinstance(o, Ref):
        ob = st.heap[o.a]
        it = ob.attrs.get("items")
        if ob.kind == "dict":
            if isinstance(it, dict) and isinstance(i, V) and i.is_const:
                d = dict(it)
                d[i.c] = v
                I.set(st, o, "items", d)
            else:
                e = dict_elem(I, st, ob)
                I.set(st, o, "items", None)
                I.set(st, o, "elem", v if e is None else I.join_vals(st.copy(), e, st.copy(), v)[1])
        elif ob.kind == "list":
            if it is not None and isinstance(i, V) and i.is_const and isinstance(i.c, int) and -len(it) <= i.c < len(it):
                l = list(it)
                l[i.c] = v
                I.set(st, o, "items", tuple(l))
            else:
                from .interp import Seq
                s = to_seq(I, st, o, node)
                I.set(st, o, "seq", Seq(I.join_vals(st.copy(), s.elem, st.copy(), v)[1], s.n, None))
                I.set(st, o, "items", None)


def del_item(I, st, o, i):
    from .interp import Ref
    if isinstance(o, Ref):
        ob = st.heap[o.a]
        it = ob.attrs.get("items")
        if ob.kind == "dict" and isinstance(it, dict) and isinstance(i, V) and i.is_const:
            d = dict(it)
            d.pop(i.c, None)
            I.set(st, o, "items", d)


def list_extend(I, st, o, rhs):
    from .interp import Seq
    ob = st.heap[o.a]
    it = ob.attrs.get("items")
    x = concrete_items(I, st, rhs)
    if it is not None and x is not None:
        I.set(st, o, "items", tuple(it) + tuple(x))
    else:
        s, t = to_seq(I, st, o, None), to_seq(I, st, rhs, None)
        e = I.join_vals(st.copy(), s.elem, st.copy(), t.elem)[1] if s and t else TOP()
        I.set(st, o, "items", None)
        I.set(st, o, "seq", Seq(e))


# ---------------------------------------------------------------- attributes
ALIAS_ATTR = {"T", "real", "flat", "mat"}


def value_attr(I, st, o, name, node):
    from .interp import BMeth, PS, EObj, Tup, Ext
    if isinstance(o, PS):
        if name in PSOPS:
            return BMeth(o, name)
        return PS(o.path + (name,))
    if isinstance(o, EObj):
        if o.kind == "nt":
            if name in o.f["items"]:
                return o.f["items"][name]
            if name.startswith("_"):
                return BMeth(o, name)
            I.event("no_attr", node, cls="named tuple", attr=name)
            return TOP()
        if o.kind == "normal":
            if name == "mean":
                return o.f["mean"]
            if name in ("var",):
                return o.f["var"]
            if name == "dtype":
                return EObj("dtype")
            if name == "dim":
                v = o.f["var"]
                return O.dimV(v.sh[-1]) if known(v) and v.sh else TOP()
            return BMeth(o, name)
        if o.kind == "noop":
            return EObj("noop")
        return BMeth(o, name)
    if isinstance(o, V):
        if name == "T":
            r = O.transpose(o) if known(o) and len(o.sh) == 2 else o.but(nf=None, w=o.w if O.zero_w(o.w) else None)
            return stamp(I, r, "transpose", idof(o)) if I.cfg.get("optree") else r
        if name == "shape":
            return Tup([O.dimV(d) for d in o.sh]) if known(o) else TOP()
        if name == "size":
            if known(o):
                p = ONE
                for d in o.sh:
                    p = p * d
                return O.dimV(p)
            return V(u=U1, lo=(), sh=(), w=Z, ty="int")
        if name == "ndim":
            return num(len(o.sh)) if known(o) else TOP()
        if name in ("mat",):
            return o
        if name == "real":
            r = O.vfun("real", o).but(roots=o.roots)
            return stamp(I, r, "np.real", idof(o)) if I.cfg.get("optree") else r
        if name == "imag" and I.cfg.get("optree"):
            return stamp(I, O.vfun("imag", o), "np.imag", idof(o))
        if name == "dtype":
            return EObj("dtype")
        return BMeth(o, name)
    return BMeth(o, name)


def inst_attr(I, st, o, ob, name, node):
    from .interp import BMeth, PS, EObj
    if I.prog.subclass(ob.cls, "AbstractGPCM"):
        if name == "ps":
            if not ob.attrs.get("$inst"):
                I.event("no_ps", node, cls=ob.cls.name)
            return PS(())
        if name == "dtype":
            return EObj("dtype")
        if name == "vs":
            return ob.attrs.get("vs") or TOP()
        if name in ("condition", "fit", "logpdf", "noiseless"):
            return BMeth(o, name)
        if name in ("instantiated",):
            return num(bool(ob.attrs.get("$inst")))
        if name in ("posterior", "prior"):
            p = bool(ob.attrs.get("$posterior"))
            return num(p if name == "posterior" else not p)
    return None


def lenient_class(I, cls):
    """Does the class have bases outside the program?"""
    for c in I.prog.mro(cls):
        for b in c.bases:
            nm = ast.unparse(b)
            if I.prog.find_class(c.module, nm) is None and nm not in ("object", "Model"):
                return True
    return False


# ---------------------------------------------------------------- models
def inst_call(I, st, f, ob, args, kw, node):
    if I.prog.subclass(ob.cls, "AbstractGPCM"):
        if not args and I.cfg.get("objective"):
            I.event("jit_effect", node, what="instantiates the model with its stored variables instead of those that the optimiser passes, which change between calls")
        return instantiate(I, st, f, force=True, node=node)
    return None


def dict_elem(I, st, ob):
    """Any of the values of a dictionary, if it has values that are known."""
    it = ob.attrs.get("items")
    es = list(it.values()) if isinstance(it, dict) else [ob.attrs.get("elem")]
    e = None
    for x in es:
        if x is not None:
            e = x if e is None else I.join_vals(st.copy(), e, st.copy(), x)[1]
    return e


def instantiate(I, st, r, force=False, node=None):
    """Call a model: a shallow copy with its prior constructed and pending conditioning applied."""
    from .interp import Fn, Ref, Obj
    ob = st.heap[r.a]
    if ob.kind != "inst" or not I.prog.subclass(ob.cls, "AbstractGPCM"):
        return r
    if ob.attrs.get("$inst") and not force:
        return r
    at = dict(ob.attrs)
    at["$inst"] = True
    n = I.new(st, "inst", ob.cls)
    st.heap[n.a] = Obj("inst", ob.cls, at)
    ms = I.prog.methods(ob.cls, "__prior__")
    if ms:
        I.call(Fn(ms, None, n), [], {}, node, st)
    for args, kw in at.get("$cond", ()):
        condition_now(I, st, n, list(args), dict(kw), node)
    return n


def condition_now(I, st, n, args, kw, node):
    from .interp import Fn
    ms = I.prog.methods(st.heap[n.a].cls, "__condition__")
    if ms:
        I.call(Fn(ms, None, n), args, kw, node, st)
    I.set(st, n, "$posterior", True)


def model_method(I, st, o, name, args, kw, node):
    from .interp import Fn, Obj
    ob = st.heap[o.a]
    if name == "condition":
        if ob.attrs.get("$inst"):
            condition_now(I, st, o, args, kw, node)
            return o
        n = I.new(st, "inst", ob.cls)
        at = dict(ob.attrs)
        at["$cond"] = tuple(at.get("$cond", ())) + ((tuple(args), tuple(kw.items())),)
        st.heap[n.a] = Obj("inst", ob.cls, at)
        return n
    if name == "fit":
        if not I.prog.fit_overloads:
            return TOP()
        I.call(Fn(I.prog.fit_overloads), [o] + args, kw, node, st)
        return num(None)
    return TOP()


PSOPS = {"positive", "pos", "unbounded", "ubnd", "bounded", "bnd", "positive_definite", "pd", "lower_triangular", "tril", "orthogonal", "orth", "assign", "delete", "all", "get", "sequential"}


def ps_call(I, st, o, name, args, kw, node):
    """Operations on the parameter structure."""
    path = o.path
    init = kw.get("init", args[0] if args else None)
    if name == "all":
        return num("$all:" + "/".join(map(str, path)))
    if name == "assign":
        I.event("ps_write", node, path=path, value=args[0] if args else None)
        if I.jit:
            I.event("jit_effect", node, what="assigns a stored variable")
        return num(None)
    if name == "delete":
        I.event("ps_delete", node, path=path)
        st.meta = dict(st.meta)
        st.meta["deleted"] = st.meta.get("deleted", frozenset()) | {path}
        if I.jit:
            I.event("jit_effect", node, what="deletes a stored variable")
        return num(None)
    if name is None:
        I.event("ps_read", node, path=path)
        r = I.vs_contract(I, st, path, None, None) if I.vs_contract else None
        if r is None and path not in I.__dict__.get("registered", ()) and all(isinstance(x, (str, int)) and x != "?" for x in path):
            I.event("ps_unset", node, path=path)
        return r if r is not None else TOP()
    nm = kw.get("name", None)
    if nm is not None and isinstance(nm, V) and nm.is_const:
        path = path + (nm.c,)
    deleted = st.meta.get("deleted", frozenset())
    if path in deleted:
        I.event("ps_write", node, path=path, value=init)
        st.meta = dict(st.meta)
        st.meta["deleted"] = deleted - {path}
    bounds = {k: kw[k] for k in ("lower", "upper", "visible") if k in kw}
    I.event("ps_reg", node, path=path, op=name, init=init, bounds=bounds)
    known_ = I.__dict__.setdefault("registered", set())
    if I.jit and path not in known_:
        I.event("jit_effect", node, what=f"creates the stored variable {'/'.join(map(str, path))}, which outlives the call")
    known_.add(path)
    r = I.vs_contract(I, st, path, name, init) if I.vs_contract else None
    if r is not None:
        return r
    init = asv(I, st, init) if init is not None else TOP()
    if init.ty == "int" or init.is_const:
        init = init.but(ty=None, c=MISSING)
    return init.but(tags=(init.tags - {"rnd"}) | {"h", "v:" + "/".join(map(str, path))}, roots=frozenset())


def vs_call(I, st, o, name, args, kw, node):
    from .interp import EObj, Seq
    w = I.cfg.get("vsw")
    if w is not None:
        return w.call(I, st, name, args, kw, node)
    if name == "assign":
        I.event("vs_assign", node, name=args[0] if args else kw.get("name"), value=args[1] if len(args) > 1 else kw.get("value"))
    elif name in ("unbounded", "positive", "bounded", "positive_definite", "ubnd", "pos", "bnd", "pd", "get"):
        I.event("vs_reg", node, op=name, name=kw.get("name"), init=args[0] if args else kw.get("init"))
        return args[0] if args else kw.get("init", TOP())
    elif name == "delete":
        I.event("vs_delete", node)
    return TOP()


# ---------------------------------------------------------------- calls
IO = {"builtins.print", "builtins.open", "pickle.dump", "pickle.load", "wbml.out.out", "wbml.out.kv", "wbml.out.Section", "wbml.out.Progress"}


def call(I, st, f, args, kw, node):
    from .interp import Ext, BMeth, EObj, Fn, PS, ClsV, Tup, Seq, Ref
    from . import libep, libfn
    if isinstance(f, PS):
        return ps_call(I, st, f, None, args, kw, node)
    if isinstance(f, BMeth):
        return method_call(I, st, f, args, kw, node)
    if isinstance(f, EObj):
        if f.kind == "noop":
            if I.jit:
                I.event("jit_effect", node, what="reports progress or prints")
            return EObj("noop")
        if f.kind == "partial":
            a, k = f.f["args"], dict(f.f["kw"])
            k.update(kw)
            return I.call(f.f["fn"], list(a) + args, k, node, st)
        if f.kind == "jit":
            I.event("jit_enter", node, fn=f.f["fn"].fns[0].where if isinstance(f.f["fn"], Fn) else repr(f.f["fn"])[:60])
            I.jit.append(I.addr)
            I.jitkeep.append(f)
            I.jitfns.append(("jit", id(f)))
            try:
                return libfn.jit_result(I, st, I.call(f.f["fn"], args, kw, node, st), node)
            finally:
                I.jit.pop()
                I.jitfns.pop()
        if f.kind == "prim":
            r = I.cfg["prims"][f.f["name"]](I, st, args, kw, node)
            return r
        if f.kind == "ntcls":
            return EObj("nt", items=dict(kw), name=f.f["name"])
        if f.kind == "kernel":
            return TOP()
        if f.kind == "gp":
            return EObj("fdd", gp=f, t=asv(I, st, args[0]) if args else TOP())
        return libep.ecall(I, st, f, args, kw, node)
    if isinstance(f, Ext):
        p = f.path
        if p in IO or p.startswith(("wbml.", "matplotlib.")):
            if I.jit:
                I.event("jit_effect", node, what=f"does input or output: {p}")
            I.event("io", node, fn=p)
        if p in libfn.MODIFIES and args:
            I.mutation(args[0], st, node, f"`{p}`")
        for k in ("out", "overwrite_a", "overwrite_b", "overwrite_x"):
            if k in kw:
                for v in ([kw[k]] if k == "out" else [] if isinstance(kw[k], V) and kw[k].is_const and not kw[k].c else args[:2]):
                    I.mutation(v, st, node, f"`{p}` with `{k}`")
        h = libfn.table(p)
        if h is not None:
            g = st.gtok
            r = h(I, st, args, kw, node)
            if I.cfg.get("optree") and p not in ("functools.reduce", "builtins.hash", "builtins.id") and isinstance(r, V) and not r.is_const and any(isinstance(a, (V, Ref)) for a in args):
                # Expand lists, whose order matters.
                aa = [opid("l", *[idof(i) for i in st.heap[a.a].attrs["items"]]) if isinstance(a, Ref) and a.a in st.heap and st.heap[a.a].kind == "list" and st.heap[a.a].attrs.get("items") is not None else idof(a) for a in args]
                drawn = [("drawn from", tokid(g))] if st.gtok != g and g is not None else []
                r = r.but(ld=opid(p, *aa, *[(k, idof(v)) for k, v in sorted(kw.items())], *drawn))
            elif I.cfg.get("optree") and isinstance(r, Tup) and args and any(isinstance(a, V) for a in args):
                i = opid(p, *[idof(a) for a in args], *[(k, idof(v)) for k, v in sorted(kw.items())])
                r = Tup([x.but(ld=opid("item", k, i)) if isinstance(x, V) and not x.is_const else x for k, x in enumerate(r.items)])
            return r
        return libfn.unknown(I, st, p, args, kw, node)
    return TOP()


def method_call(I, st, f, args, kw, node):
    from .interp import Ext, BMeth, EObj, Fn, PS, ClsV, Tup, Seq, Ref
    from . import libep, libfn
    o, name = f.obj, f.name
    if isinstance(o, PS):
        return ps_call(I, st, o, name, args, kw, node)
    if isinstance(o, Ref):
        ob = st.heap[o.a]
        if ob.kind == "inst":
            return model_method(I, st, o, name, args, kw, node)
        if ob.kind == "vs":
            return vs_call(I, st, o, name, args, kw, node)
        if ob.kind in ("list", "set", "dict"):
            return container_method(I, st, o, ob, name, args, kw, node)
        return TOP()
    if isinstance(o, EObj):
        return libep.emethod(I, st, o, name, args, kw, node)
    if isinstance(o, V):
        if o.is_const and isinstance(o.c, str) or o.ty == "str":
            return str_method(I, st, o, name, args, kw, node)
        return libfn.vmethod(I, st, o, name, args, kw, node)
    if isinstance(o, (Tup, Seq)):
        return TOP()
    return TOP()


def str_method(I, st, o, name, args, kw, node):
    from .interp import Tup
    if name == "join" and args:
        xs = concrete_items(I, st, args[0])
        if o.is_const and xs is not None and all(isinstance(x, V) and x.is_const and isinstance(x.c, str) for x in xs):
            return num(o.c.join(x.c for x in xs))
        return V(ty="str", lo=None)
    if o.is_const and all(isinstance(a, V) and a.is_const for a in args) and not kw:
        try:
            r = getattr(o.c, name)(*[a.c for a in args])
            if isinstance(r, (str, bool, int)):
                return num(r)
            if isinstance(r, (list, tuple)) and all(isinstance(x, str) for x in r):
                return Tup([num(x) for x in r]) if isinstance(r, tuple) else I.new(st, "list", node, items=tuple(num(x) for x in r))
        except Exception:
            pass
    if name in ("startswith", "endswith", "isdigit"):
        return V(u=U1, lo=(), sh=(), ty="bool", w=Z)
    return V(ty="str", lo=None)


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add", "discard", "setdefault", "popitem"}


def container_method(I, st, o, ob, name, args, kw, node):
    from .interp import Seq, Tup, EObj
    if name in MUTATORS:
        I.mutation(o, st, node, f"`{name}`")
    it = ob.attrs.get("items")
    if ob.kind == "list":
        if name == "append":
            if it is not None:
                I.set(st, o, "items", tuple(it) + (args[0],))
            else:
                s = to_seq(I, st, o, node)
                I.set(st, o, "seq", Seq(I.join_vals(st.copy(), s.elem, st.copy(), args[0])[1], None, None))
            return num(None)
        if name == "extend":
            list_extend(I, st, o, args[0])
            return num(None)
        if name == "insert" and it is not None and isinstance(args[0], V) and args[0].is_const:
            l = list(it)
            l.insert(args[0].c, args[1])
            I.set(st, o, "items", tuple(l))
            return num(None)
        if name == "pop":
            if it:
                k = args[0].c if args and args[0].is_const else -1
                l = list(it)
                r = l.pop(k)
                I.set(st, o, "items", tuple(l))
                return r
            return to_seq(I, st, o, node).elem
        if name == "reverse" and it is not None:
            I.set(st, o, "items", tuple(reversed(it)))
            return num(None)
        if name == "copy":
            return I.new(st, "list", None, items=it, seq=ob.attrs.get("seq"))
        return TOP()
    if ob.kind == "dict":
        if name == "setdefault" and args:
            d = args[1] if len(args) > 1 else num(None)
            if isinstance(it, dict) and isinstance(args[0], V) and args[0].is_const:
                if args[0].c not in it:
                    I.set(st, o, "items", {**it, args[0].c: d})
                return it.get(args[0].c, d)
            e = dict_elem(I, st, ob)
            if e is not None:
                d = I.join_vals(st.copy(), e, st.copy(), d)[1]
            elif it != {}:
                d = TOP()
            I.set(st, o, "items", None)
            I.set(st, o, "elem", d)
            return d
        if name == "items":
            if isinstance(it, dict):
                return Tup([Tup([num(k), v]) for k, v in it.items()])
            return Seq(Tup([TOP(), ob.attrs.get("elem") or TOP()]))
        if name == "keys":
            return Tup([num(k) for k in it]) if isinstance(it, dict) else Seq(TOP())
        if name == "values":
            return Tup(list(it.values())) if isinstance(it, dict) else Seq(ob.attrs.get("elem") or TOP())
        if name == "get":
            if isinstance(it, dict) and isinstance(args[0], V) and args[0].is_const:
                return it.get(args[0].c, args[1] if len(args) > 1 else num(None))
            if not args:
                return TOP()
            d = args[1] if len(args) > 1 else kw.get("default", num(None))
            e = dict_elem(I, st, ob)
            if e is None:
                return d if it == {} else TOP()
            return I.join_vals(st.copy(), e, st.copy(), d)[1]
        if name == "update":
            d = dict(it) if isinstance(it, dict) else None
            if d is not None:
                d.update(kw)
                for a in args:
                    if hasattr(a, "a") and isinstance(st.heap[a.a].attrs.get("items"), dict):
                        d.update(st.heap[a.a].attrs["items"])
                    else:
                        d = None
                        break
            I.set(st, o, "items", d)
            return num(None)
        if name == "pop":
            if isinstance(it, dict) and args and args[0].is_const:
                d = dict(it)
                r = d.pop(args[0].c, args[1] if len(args) > 1 else TOP())
                I.set(st, o, "items", d)
                return r
            return TOP()
        if name == "setdefault" and isinstance(it, dict) and args[0].is_const:
            d = dict(it)
            r = d.setdefault(args[0].c, args[1] if len(args) > 1 else num(None))
            I.set(st, o, "items", d)
            return r
        if name == "copy":
            return I.new(st, "dict", None, items=dict(it) if isinstance(it, dict) else None)
        return TOP()
    if ob.kind == "set":
        if name == "add" and it is not None:
            I.set(st, o, "items", tuple(dedupe(I, st, list(it) + [args[0]], node)))
            return num(None)
        if name in ("union", "difference", "intersection", "symmetric_difference") and args:
            b = args[0]
            if not isset(st, b):
                from . import libfn
                b = libfn.f_set(I, st, [b], {}, node)
            return binop(I, st, {"union": "BitOr", "difference": "Sub", "intersection": "BitAnd"}.get(name, "BitXor"), o, b, node)
        if name == "copy":
            return I.new(st, "set", None, items=it)
        return TOP()
    return TOP()


def jit_result(I, st, r, node):
    from . import libfn
    return libfn.jit_result(I, st, r, node)
