"""Interprocedural, flow-sensitive abstract interpreter over the syntax trees of /repo.

Nothing of the repository is imported or executed. Values are elements of the domains in
`dom.py`; unknown branches are explored both and joined; loops are iterated abstractly;
user functions are inlined; library functions have transfer functions in `lib.py`, and
everything else maps to the top element."""
import ast
from fractions import Fraction
from . import nf as N
from .dom import *
from .front import FnInfo, ClsInfo, Module, Program, AnalysisError


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup" + repr(self.items)


class Seq:
    """Sequence of unknown length with a generic element, labelled `lab`."""
    __slots__ = ("elem", "n", "lab", "roots")

    def __init__(self, elem, n=None, lab=None, roots=frozenset()):
        self.elem, self.n, self.lab, self.roots = elem, n, lab, roots

    def __repr__(self):
        return f"Seq({self.elem!r}, n={self.n}, lab={self.lab})"


class Ref:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(self.a)

    def __repr__(self):
        return f"Ref({self.a})"


class Obj:
    __slots__ = ("kind", "cls", "attrs")

    def __init__(self, kind, cls=None, attrs=None):
        self.kind, self.cls, self.attrs = kind, cls, attrs or {}

    def __repr__(self):
        return f"Obj({self.kind}, {self.cls}, {list(self.attrs)})"


class Fn:
    """User function(s), possibly overloaded, possibly bound."""
    __slots__ = ("fns", "env", "self", "jit")

    def __init__(self, fns, env=None, self_=None, jit=False):
        self.fns, self.env, self.self, self.jit = fns, env, self_, jit

    def __repr__(self):
        return f"Fn({self.fns[0].where}{' jit' if self.jit else ''})"


class Ext:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and self.path == o.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return f"Ext({self.path})"


class BMeth:
    """Method of a non-user value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"BMeth({self.obj!r}.{self.name})"


class EObj:
    """Immutable instance of a library class."""
    __slots__ = ("kind", "f")

    def __init__(self, kind, **f):
        self.kind, self.f = kind, f

    def __repr__(self):
        return f"EObj({self.kind}, {self.f})"


class PS:
    """Path into the parameter structure of a model."""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, PS) and self.path == o.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "PS" + repr(self.path)


class ClsV:
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClsV) and self.cls is o.cls

    def __hash__(self):
        return hash(self.cls.name)

    def __repr__(self):
        return f"ClsV({self.cls.name})"


class AbsRaise(Exception):
    """All paths of the abstract execution of an expression raise."""

    def __init__(self, name, st=None):
        self.name = name
        self.st = st


class State:
    __slots__ = ("heap", "gtok", "consumed", "meta")

    def __init__(self, heap=None, gtok="g0", consumed=frozenset(), meta=None):
        self.heap = heap if heap is not None else {}
        self.gtok, self.consumed = gtok, consumed
        self.meta = meta or {}

    def copy(self):
        return State(dict(self.heap), self.gtok, self.consumed, dict(self.meta))

    def become(self, o):
        self.heap, self.gtok, self.consumed, self.meta = o.heap, o.gtok, o.consumed, o.meta


class Flow:
    __slots__ = ("next", "ret", "brk", "cont", "exc")

    def __init__(self, next=None):
        self.next, self.ret, self.brk, self.cont, self.exc = next, None, None, None, []


MAXDEPTH = 60


class Interp:
    def __init__(self, prog, nf=True, vs_contract=None, hooks=None, domain_cfg=None):
        self.prog = prog
        self.nfon = nf
        self.addr = 0
        self.stack = []
        self.jit = []
        self.jitfns = []  # Identities of the compiled functions that are running.
        self.jitreads = {}
        self.jitkeep = []
        self.events = []
        self.stats = {}  # Order statistics, by the names of their symbols.
        self.evkeys = set()
        self.ntok = 0
        self.tokroots = {}
        self.stage = ""
        self.epoch = 0  # Number of optimisations started and finished.
        self.vs_contract = vs_contract
        self.hooks = hooks or {}  # function qualname -> python callable(I, st, bound, args, kwargs)
        self.unsupported = {}
        self.visited = {}
        self.calls = 0
        self.nlab = 0
        self.cfg = domain_cfg or {}
        self.steps = 0
        self.toklog = []
        from . import lib
        self.lib = lib

    # -- bookkeeping
    def loc(self, node=None):
        w = self.stack[-1].where if self.stack else "?"
        if node is not None:
            try:
                s = ast.unparse(node)
            except Exception:
                s = "?"
            s = " ".join(s.split())
            w += ":" + str(getattr(node, "lineno", "?")) + ": `" + (s if len(s) < 90 else s[:87] + "...") + "`"
        return w

    def event(self, kind, node=None, **kw):
        k = (self.stage, self.epoch, kind, self.stack[-1].where if self.stack else "?", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), repr(sorted((a, repr(b)) for a, b in kw.items())))
        if k in self.evkeys:
            return
        self.evkeys.add(k)
        kw.update(kind=kind, where=self.stack[-1].where if self.stack else "?", loc=self.loc(node), stack=[f.where for f in self.stack])
        self.events.append(kw)

    def unsup(self, what, node=None):
        self.unsupported[what] = self.unsupported.get(what, 0) + 1
        return TOP()

    def new(self, st, kind, cls=None, **attrs):
        self.addr += 1
        st.heap[self.addr] = Obj(kind, cls, attrs)
        return Ref(self.addr)

    def obj(self, st, r):
        return st.heap[r.a]

    def get(self, st, r, name):
        return st.heap[r.a].attrs.get(name)

    def set(self, st, r, name, v):
        o = st.heap[r.a]
        at = dict(o.attrs)
        at[name] = v
        st.heap[r.a] = Obj(o.kind, o.cls, at)

    def newtok(self, why, *parents):
        """A new token; the roots of its stream are those of its parents."""
        self.ntok += 1
        t = f"t{self.ntok}:{why}"
        self.tokroots[t] = frozenset().union(*[self.tokroots.get(p, frozenset([p])) for p in parents]) if parents else frozenset([t])
        self.lib.TOKENS[t] = self.lib.opid("tok", why, *[self.lib.tokid(p) for p in parents])
        return t

    def consume(self, st, tok, node):
        """A draw that uses token `tok`."""
        if tok is None:
            return
        if tok in st.consumed:
            self.event("tok_reuse", node, tok=str(tok).split(":")[-1])
        self.event("draw", node)
        st.consumed = st.consumed | {tok}

    def label(self):
        self.nlab += 1
        return f"s{self.nlab}"

    # -- joins
    def join_states(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        out = State({}, None, a.consumed | b.consumed)
        phis = {}
        memo = {}

        def jtok(x, y):
            if x == y:
                return x
            if x is None or y is None:
                return x if y is None else y
            k = (x, y)
            if k not in phis:
                t = self.newtok("join", x, y)
                phis[k] = t
                if x in a.consumed or y in b.consumed:
                    out.consumed = out.consumed | {t}
            return phis[k]

        def jv(x, y):
            if x is y:
                return x
            if isinstance(x, V) and isinstance(y, V):
                r = vjoin(x, y)
                if x.tok != y.tok:
                    r = r.but(tok=jtok(x.tok, y.tok))
                return r
            if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
                return Tup(jv(p, q) for p, q in zip(x.items, y.items))
            if isinstance(x, Seq) and isinstance(y, Seq):
                return Seq(jv(x.elem, y.elem), x.n if x.n == y.n else None, x.lab if x.lab == y.lab else None, x.roots | y.roots)
            if isinstance(x, (Tup, Seq)) and isinstance(y, (Tup, Seq)):
                xs = list(x.items) if isinstance(x, Tup) else [x.elem]
                ys = list(y.items) if isinstance(y, Tup) else [y.elem]
                e = None
                for z in xs + ys:
                    e = z if e is None else jv(e, z)
                return Seq(e if e is not None else TOP(), None, None)
            if isinstance(x, Ref) and isinstance(y, Ref):
                if x.a == y.a:
                    return x
                return jref(x, y)
            if type(x) is type(y):
                try:
                    if x == y:
                        return x
                except Exception:
                    pass
                if isinstance(x, EObj) and x.kind == y.kind and set(x.f) == set(y.f):
                    return EObj(x.kind, **{k: jv(x.f[k], y.f[k]) if not isinstance(x.f[k], (str, int, tuple)) else x.f[k] for k in x.f})
            return TOP()

        def jref(x, y):
            k = (x.a, y.a)
            if k in memo:
                return memo[k]
            p, q = a.heap.get(x.a), b.heap.get(y.a)
            if p is None:
                p = b.heap.get(x.a)
            if q is None:
                q = a.heap.get(y.a)
            if p is None or q is None or p.kind != q.kind or p.cls is not q.cls:
                return TOP()
            self.addr += 1
            r = Ref(self.addr)
            memo[k] = r
            out.heap[r.a] = jobj(p, q)
            return r

        def jobj(p, q):
            if p is q:
                return p
            at = {}
            for n in list(p.attrs) + [n for n in q.attrs if n not in p.attrs]:
                if n in ("items", "seq", "elem") and p.kind in ("list", "set", "dict"):
                    continue
                if n in p.attrs and n in q.attrs:
                    u, v = p.attrs[n], q.attrs[n]
                    if n in ("$parent", "$fn"):
                        at[n] = u
                        continue
                    at[n] = u if u is v else jv(u, v)
                else:
                    at[n] = p.attrs.get(n, q.attrs.get(n))
            if p.kind in ("list", "set", "dict"):
                at.update(jcont(p, q))
            return Obj(p.kind, p.cls, at)

        def jcont(p, q):
            u, v = p.attrs.get("items"), q.attrs.get("items")
            if p.kind == "dict":
                if isinstance(u, dict) and isinstance(v, dict) and list(u) == list(v):
                    return {"items": {k: jv(u[k], v[k]) for k in u}}
                es = (list(u.values()) if isinstance(u, dict) else [p.attrs.get("elem")]) + (list(v.values()) if isinstance(v, dict) else [q.attrs.get("elem")])
                return {"items": None, "elem": jall(es)}
            if u is not None and v is not None and len(u) == len(v):
                return {"items": tuple(jv(x, y) for x, y in zip(u, v))}
            su, sv = p.attrs.get("seq"), q.attrs.get("seq")
            es = (list(u) if u is not None else [su.elem] if su is not None else []) + (list(v) if v is not None else [sv.elem] if sv is not None else [])
            n = lab = None
            if u is None and v is None and su is not None and sv is not None:
                n = su.n if su.n == sv.n else None
                lab = su.lab if su.lab == sv.lab else None
            return {"items": None, "seq": Seq(jall(es), n, lab)}

        def jall(es):
            e = None
            for z in es:
                if z is not None:
                    e = z if e is None else jv(e, z)
            return e if e is not None else TOP()

        out.gtok = jtok(a.gtok, b.gtok)
        for k in a.heap:
            if k in b.heap:
                out.heap[k] = a.heap[k] if a.heap[k] is b.heap[k] else jobj(a.heap[k], b.heap[k])
            else:
                out.heap[k] = a.heap[k]
        for k in b.heap:
            if k not in a.heap:
                out.heap[k] = b.heap[k]
        # What lasts for the whole process.
        for k in list(a.meta) + [k for k in b.meta if k not in a.meta]:
            if isinstance(k, tuple) and k[0] in ("global", "class", "default", "function"):
                u, v = a.meta.get(k), b.meta.get(k)
                if u is not None and v is not None:
                    out.meta[k] = jv(u, v)
                else:
                    w = u if u is not None else v
                    out.meta[k] = w if isinstance(w, Ref) else TOP()
        self._jv = jv
        return out

    def join_vals(self, sa, a, sb, b):
        """Join two (state, value) pairs."""
        s = State(dict(sa.heap), sa.gtok, sa.consumed, dict(sa.meta))
        ka = self.new(s, "ret", None, v=a)
        s2 = State(dict(sb.heap), sb.gtok, sb.consumed, dict(sb.meta))
        s2.heap[ka.a] = Obj("ret", None, {"v": b})
        j = self.join_states(s, s2)
        v = j.heap.pop(ka.a).attrs["v"]
        return j, v

    def jflow(self, f, g):
        """Join of two flows from alternative branches."""
        out = Flow(self.join_states(f.next, g.next))
        if f.ret and g.ret:
            out.ret = self.join_vals(f.ret[0], f.ret[1], g.ret[0], g.ret[1])
        else:
            out.ret = f.ret or g.ret
        out.brk = self.join_states(f.brk, g.brk)
        out.cont = self.join_states(f.cont, g.cont)
        out.exc = f.exc + g.exc
        return out

    # -- statements
    def block(self, stmts, st, env):
        out = Flow()
        cur = st
        for s in stmts:
            try:
                f = self.stmt(s, cur, env)
            except AbsRaise as e:
                f = Flow()
                f.exc = [(e.name, e.st or cur)]
            if f.ret:
                out.ret = self.join_vals(out.ret[0], out.ret[1], *f.ret) if out.ret else f.ret
            out.brk = self.join_states(out.brk, f.brk)
            out.cont = self.join_states(out.cont, f.cont)
            out.exc += f.exc
            cur = f.next
            if cur is None:
                return out
        out.next = cur
        return out

    def stmt(self, s, st, env):
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisError("analysis budget exceeded")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unsup("stmt " + type(s).__name__, s)
            return Flow(st)
        r = m(s, st, env)
        return r if r is not None else Flow(st)

    def s_Expr(self, s, st, env):
        self.eval(s.value, st, env)

    def s_Pass(self, s, st, env):
        pass

    def s_Import(self, s, st, env):
        pass

    s_ImportFrom = s_Import

    def s_Nonlocal(self, s, st, env):
        self.set(st, env, "$nonlocal", self.obj(st, env).attrs.get("$nonlocal", frozenset()) | set(s.names))

    def s_Global(self, s, st, env):
        self.set(st, env, "$global", self.obj(st, env).attrs.get("$global", frozenset()) | set(s.names))

    def s_Assert(self, s, st, env):
        v = self.eval(s.test, st, env)
        if isinstance(v, V) and v.is_const and not v.c:
            raise AbsRaise("AssertionError")

    def s_Delete(self, s, st, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, env)
                self.mutation(o, st, t, "del")
                self.lib.del_item(self, st, o, self.eval(t.slice, st, env))

    def s_Return(self, s, st, env):
        v = self.eval(s.value, st, env) if s.value is not None else num(None)
        f = Flow()
        f.ret = (st, v)
        return f

    def s_Break(self, s, st, env):
        f = Flow()
        f.brk = st
        return f

    def s_Continue(self, s, st, env):
        f = Flow()
        f.cont = st
        return f

    def s_Raise(self, s, st, env):
        name = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e).split(".")[-1]
        self.event("raise", s, exc=name)
        f = Flow()
        f.exc = [(name, st)]
        return f

    def s_FunctionDef(self, s, st, env):
        cur = self.stack[-1] if self.stack else None
        fn = FnInfo(s, self.obj(st, env).attrs["$fn"].module, None, cur.qual if cur else None)
        v = Fn([fn], env)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, st, env)
            v = self.call(dv, [v], {}, d, st)
        self.set(st, env, s.name, v)

    def s_ClassDef(self, s, st, env):
        self.set(st, env, s.name, self.unsup("local class"))

    def s_Assign(self, s, st, env):
        v = self.eval(s.value, st, env)
        for t in s.targets:
            self.assign(t, v, st, env)

    def s_AnnAssign(self, s, st, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, env), st, env)

    def s_AugAssign(self, s, st, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, env, s)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, env)
            old = self.getattr(o, t.attr, st, t)
        else:
            o = self.eval(t.value, st, env)
            i = self.eval(t.slice, st, env)
            old = self.lib.getitem(self, st, o, i, t)
            self.mutation(o, st, s, "augmented assignment to an element")
        rhs = self.eval(s.value, st, env)
        if isinstance(old, V) and old.roots and not (old.sh == () or old.ty in ("int", "float")):
            self.mutation(old, st, s, "augmented assignment")
        if isinstance(old, Ref) and self.obj(st, old).kind in ("list", "dict", "set"):
            self.mutation(old, st, s, "augmented assignment")
            if self.obj(st, old).kind == "list":
                self.lib.list_extend(self, st, old, rhs)
                return
        v = self.lib.binop(self, st, type(s.op).__name__, old, rhs, s)
        if isinstance(v, V) and isinstance(old, V) and old.roots:
            v = v.but(roots=v.roots | old.roots)
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, v, st, s)
        else:
            self.lib.setitem(self, st, o, i, v, s)

    def set_name(self, name, v, st, env):
        at = self.obj(st, env).attrs
        if name in at.get("$nonlocal", ()):
            e = at.get("$parent")
            while e is not None and name not in self.obj(st, e).attrs:
                e = self.obj(st, e).attrs.get("$parent")
            if e is not None:
                if self.jit and e.a <= self.jit[-1]:
                    self.event("jit_effect", None, what=f"assigns the variable {name} of an enclosing function")
                self.set(st, e, name, v)
                return
        if name in at.get("$global", ()):
            if self.jit:
                self.event("jit_effect", None, what=f"assigns the global variable {name}")
            st.meta = dict(st.meta)
            st.meta[("global", at["$fn"].module.dotted, name)] = v
            return
        self.set(st, env, name, v)

    def assign(self, t, v, st, env):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.lib.unpack(self, st, v, len(t.elts), t, starred=[i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)])
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st, env), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, env)
            i = self.eval(t.slice, st, env)
            self.mutation(o, st, t, "assignment to an element")
            self.lib.setitem(self, st, o, i, v, t)
            if isinstance(o, V) and isinstance(t.value, ast.Name):
                x = self.lib.asv(self, st, v)
                z = lambda y: y.w is not None and not y.w.t
                self.set_name(t.value.id, o.but(nf=None, c=MISSING, ld=None, w=o.w if z(o) and z(x) else None, u=uadd(o.u, x.u, self.loc(t)), tags=o.tags | x.tags), st, env)

    def mutation(self, o, st, node, how):
        """Record an in-place modification."""
        if isinstance(o, (V, Seq)):
            if o.roots:
                self.event("mutate", node, roots=sorted(o.roots), how=how)
        elif isinstance(o, Ref):
            ob = self.obj(st, o)
            r = ob.attrs.get("$roots")
            if r:
                self.event("mutate", node, roots=sorted(r), how=how)
            if self.jit and o.a <= self.jit[-1]:
                self.event("jit_effect", node, what=f"modifies a {ob.kind} that outlives the call")

    def truth(self, v, st=None):
        """True, False, or None."""
        if isinstance(v, V):
            if v.is_const:
                return bool(v.c)
            if v.nf is not None and v.sh == ():
                c = v.nf.const()
                if c is not None:
                    return c != 0
            d = self.cfg.get("decide") or self.cfg.get("holds")
            return d(self, v) if d else None
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Ref) and st is not None:
            o = self.obj(st, v)
            if o.kind in ("list", "dict", "set"):
                it = o.attrs.get("items")
                return None if it is None else len(it) > 0
            return True
        if isinstance(v, (Fn, Ext, ClsV, EObj, PS)):
            return True
        return None

    def s_If(self, s, st, env):
        c = self.eval(s.test, st, env)
        self.chance(c, s.test, any(isinstance(x, (ast.Break, ast.Return, ast.Continue)) for b in s.body + s.orelse for x in ast.walk(b)))
        t = self.truth(c, st)
        if t is True:
            return self.block(s.body, st, env)
        if t is False:
            return self.block(s.orelse, st, env)
        if len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.Assign) and len(s.body[0].targets) == 1 and isinstance(s.body[0].targets[0], (ast.Name, ast.Attribute)):
            # `if a > b: a = b` is a minimum.
            target = s.body[0].targets[0]
            old = ast.parse(ast.unparse(target), mode="eval").body
            x = self.extremum(s.test, s.body[0].value, old)
            v = self.take_extremum(x, st, env) if x else None
            if v is not None:
                self.assign(target, v, st, env)
                return self.block([], st, env)
        st2 = st.copy()
        self.refine(s.test, st, env, True)
        self.refine(s.test, st2, env, False)
        f = self.block(s.body, st, env)
        g = self.block(s.orelse, st2, env)
        if self.cfg.get("nobreak"):
            # Paths without early stopping.
            if f.next is None and f.ret is None and f.brk is not None and g.next is not None:
                return g
            if g.next is None and g.ret is None and g.brk is not None and f.next is not None:
                return f
        return self.jflow(f, g)

    def refine(self, test, st, env, pol):
        h = self.cfg.get("refine")
        if h:
            h(self, test, st, env, pol)

    def chance(self, c, node, leaves):
        if leaves and isinstance(c, V) and c.tags & {"clock", "entropy"}:
            self.event("chance", node)

    def s_While(self, s, st, env):
        out = Flow()
        acc = None
        cur = st
        parted = self.cfg.get("decide") is not None
        for k in range(400 if parted else 3):
            c = self.eval(s.test, cur, env)
            self.chance(c, s.test, True)
            t = self.truth(c, cur)
            if t is not True:
                ex = cur.copy()
                self.refine(s.test, ex, env, False)
                acc = self.join_states(acc, ex)
            if t is False:
                break
            self.refine(s.test, cur, env, True)
            f = self.block(s.body, cur if parted else cur.copy(), env)
            if f.ret:
                out.ret = self.join_vals(out.ret[0], out.ret[1], *f.ret) if out.ret else f.ret
            out.exc += f.exc
            acc = self.join_states(acc, f.brk)
            cur = self.join_states(f.next, f.cont)
            if cur is None:
                break
        else:
            if cur is not None and not (isinstance(s.test, ast.Constant) and s.test.value):
                acc = self.join_states(acc, cur)
        out.next = acc
        return out

    def s_For(self, s, st, env):
        it = self.eval(s.iter, st, env)
        items = self.lib.concrete_items(self, st, it)
        out = Flow()
        if items is not None and len(items) <= 40:
            cur = st
            acc = None
            for x in items:
                self.assign(s.target, x, cur, env)
                f = self.block(s.body, cur, env)
                self._loopjoin(out, f)
                acc = self.join_states(acc, f.brk)
                cur = self.join_states(f.next, f.cont)
                if cur is None:
                    break
            out.next = self.join_states(acc, cur)
            if s.orelse and out.next is not None:
                return self.block(s.orelse, out.next, env)
            return out
        seq = self.lib.to_seq(self, st, it, s.iter)
        if seq is None:
            self.unsup("iteration", s)
            seq = Seq(TOP())
        acc = None
        cur = st
        n_iter = 3
        for k in range(n_iter):
            self.assign(s.target, seq.elem, cur, env)
            f = self.block(s.body, cur.copy(), env)
            self._loopjoin(out, f)
            acc = self.join_states(acc, f.brk)
            cur = self.join_states(f.next, f.cont)
            if cur is None:
                break
            acc = self.join_states(acc, cur.copy())
        out.next = acc
        return out

    def _loopjoin(self, out, f):
        if f.ret:
            out.ret = self.join_vals(out.ret[0], out.ret[1], *f.ret) if out.ret else f.ret
        out.exc += f.exc

    def s_With(self, s, st, env):
        for i in s.items:
            v = self.eval(i.context_expr, st, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, self.lib.enter(self, st, v), st, env)
        return self.block(s.body, st, env)

    def s_Try(self, s, st, env):
        pre = st.copy()
        f = self.block(s.body, st, env)
        out = Flow(f.next)
        out.ret, out.brk, out.cont = f.ret, f.brk, f.cont
        caught = False
        for h in s.handlers:
            names = None if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            hit = [e for e in f.exc if names is None or e[0] in names or "Exception" in names]
            f.exc = [e for e in f.exc if e not in hit]
            parted = self.cfg.get("decide") is not None
            if parted and not hit:
                continue
            base = None if parted else pre.copy()
            for _, es in hit:
                base = self.join_states(base, es)
            if h.name:
                self.set(base, env, h.name, TOP())
            g = self.block(h.body, base, env)
            out = self.jflow(out, g)
        out.exc += f.exc
        if s.orelse and f.next is not None:
            pass
        if s.finalbody and out.next is not None:
            g = self.block(s.finalbody, out.next, env)
            out.next = g.next
        return out

    # -- names
    def lookup(self, name, st, env, node=None):
        e = env
        while e is not None:
            o = st.heap[e.a]
            if name in o.attrs and name not in o.attrs.get("$nonlocal", ()) and name not in o.attrs.get("$global", ()):
                if self.jit and e.a <= self.jit[-1]:
                    self.captured((e.a, name), f"the variable {name}", o.attrs[name], node)
                    self.captured_content(st, (e.a, name, "$content"), f"the content of {name}", o.attrs[name], node)
                return o.attrs[name]
            p = o.attrs.get("$parent")
            if p is None:
                g = ("global", o.attrs["$fn"].module.dotted, name)
                if g in st.meta:
                    if self.jit:
                        self.captured(g, f"the global variable {name}", st.meta[g], node)
                    return st.meta[g]
                return self.module_name(o.attrs["$fn"].module, name, st, node)
            e = p
        return TOP()

    def module_name(self, m, name, st, node=None):
        if name == "fit" and self.prog.fit_overloads and (any(f.module is m for f in self.prog.fit_overloads) or m.imports.get("fit", "").endswith("probmods.fit")):
            return Fn(self.prog.fit_overloads)
        if name in m.fns:
            fs = m.fns[name]
            return self.decorated(fs, st)
        if name in m.classes:
            return ClsV(m.classes[name])
        if name in m.imports:
            r = self.prog.resolve(m.imports[name])
            if isinstance(r, Module):
                return Ext("mod:" + r.dotted)
            return self.imported(m.imports[name], r)
        if name in m.assigns:
            return self.lasting(("global", m.dotted, name), m.assigns[name][-1], m, st)
        return Ext("builtins." + name)

    def lasting(self, key, e, m, st):
        """Value of an expression that is evaluated once, when its module is loaded."""
        keep = self.cfg.get("persist")
        if keep and key in st.meta:
            return st.meta[key]
        env = self.new(st, "env", None, **{"$parent": None, "$fn": FnInfo(m.tree, m)})
        try:
            v = self.eval(e, st, env)
        except AbsRaise:
            return TOP()
        if keep and isinstance(v, Ref):
            st.meta[key] = v
        return v

    def class_state(self, c, name, st):
        """Attribute of a class that is not a constant, if that may change."""
        if not self.cfg.get("persist"):
            return None
        for k in self.prog.mro(c):
            key = ("class", k.name, name)
            if key in st.meta:
                return st.meta[key]
            e = k.consts.get(name)
            if e is not None:
                return self.lasting(key, e, k.module, st) if not isinstance(e, ast.Constant) else None
        return None

    def imported(self, dotted, r=None):
        r = r if r is not None else self.prog.resolve(dotted)
        if isinstance(r, Module):
            return Ext("mod:" + r.dotted)
        if isinstance(r, ClsInfo):
            return ClsV(r)
        if isinstance(r, list):
            return Fn(r)
        return Ext(self.lib.canon_path(dotted))

    def captured(self, key, what, v, node):
        """A compiled function reads a value that it does not receive as an argument: it must be
        the same every time that the function is called."""
        ident = self.jitfns[-1] if self.jitfns else None
        if ident is None:
            return
        d = self.jitreads.setdefault(ident, {})
        if key not in d:
            d[key] = v
        elif d[key] is not v and self.differs(d[key], v):
            self.event("jit_effect", node, what=f"depends on {what}, which is not an argument and changes between calls")

    def captured_content(self, st, key, what, v, node):
        if not isinstance(v, Ref):
            return
        o = st.heap.get(v.a)
        if o is None or o.kind not in ("list", "dict", "set"):
            return
        it = o.attrs.get("items")
        c = Tup([]) if it is None else Tup(list(it.values()) if isinstance(it, dict) else list(it))
        self.captured(key, what, c, node)

    @staticmethod
    def differs(a, b):
        if isinstance(a, V) and isinstance(b, V):
            return a.key() != b.key()
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.a != b.a
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) != len(b.items) or any(Interp.differs(x, y) for x, y in zip(a.items, b.items))
        return False

    def decorated(self, fs, st):
        f = fs[0]
        if any(d in ("B.jit", "jax.jit", "jit") for d in f.decos):
            return Fn(fs, None, None, True)
        return Fn(fs)

    # -- expressions
    def eval(self, e, st, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unsup("expr " + type(e).__name__, e)
        return m(e, st, env)

    def e_Constant(self, e, st, env):
        return num(e.value)

    def e_Name(self, e, st, env):
        return self.lookup(e.id, st, env, e)

    def e_Attribute(self, e, st, env):
        return self.getattr(self.eval(e.value, st, env), e.attr, st, e)

    def e_Tuple(self, e, st, env):
        return Tup(self.elts(e.elts, st, env))

    def elts(self, elts, st, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, env)
                it = self.lib.concrete_items(self, st, v)
                if it is None:
                    s = self.lib.to_seq(self, st, v, x)
                    out.append(s if s is not None else Seq(TOP()))
                else:
                    out.extend(it)
            else:
                out.append(self.eval(x, st, env))
        return out

    def e_List(self, e, st, env):
        vals = self.elts(e.elts, st, env)
        return self.new(st, "list", None, items=tuple(vals))

    def e_Set(self, e, st, env):
        return self.new(st, "set", None, items=tuple(self.elts(e.elts, st, env)))

    def e_Dict(self, e, st, env):
        d = {}
        ok = True
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st, env)
            if k is None:
                ok = False
                continue
            kv = self.eval(k, st, env)
            if isinstance(kv, V) and kv.is_const:
                d[kv.c] = vv
            else:
                ok = False
        return self.new(st, "dict", None, items=d if ok else None)

    def e_JoinedStr(self, e, st, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, st, env)
                parts.append(str(x.c) if isinstance(x, V) and x.is_const and v.format_spec is None and v.conversion == -1 else None)
            else:
                parts.append(v.value)
        if all(p is not None for p in parts):
            return num("".join(parts))
        return V(ty="str", lo=None)

    def e_Lambda(self, e, st, env):
        cur = self.obj(st, env).attrs["$fn"]
        return Fn([FnInfo(e, cur.module, None, cur.qual)], env)

    def extremum(self, test, body, orelse):
        """`a if a < b else b` is a minimum: `(kind, expression, expression)`, or nothing."""
        if not isinstance(test, ast.Compare) or len(test.ops) != 1 or not isinstance(test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return None
        d, l, r = ast.dump, test.left, test.comparators[0]
        less = isinstance(test.ops[0], (ast.Lt, ast.LtE))
        if d(l) == d(body) and d(r) == d(orelse):
            return ("min" if less else "max"), body, orelse
        if d(r) == d(body) and d(l) == d(orelse):
            return ("max" if less else "min"), body, orelse
        return None

    def take_extremum(self, x, st, env):
        from . import libfn
        if self.cfg.get("decide") is not None or any(isinstance(y, (ast.Call, ast.NamedExpr)) for e in x[1:] for y in ast.walk(e)):
            return None
        a, b = self.eval(x[1], st, env), self.eval(x[2], st, env)
        if isinstance(a, V) and isinstance(b, V) and a.sh == () and b.sh == () and a.nf is not None and b.nf is not None:
            return libfn._mm(x[0], a, b)
        return None

    def e_IfExp(self, e, st, env):
        t = self.truth(self.eval(e.test, st, env), st)
        if t is None:
            x = self.extremum(e.test, e.body, e.orelse)
            v = self.take_extremum(x, st, env) if x else None
            if v is not None:
                return v
        if t is True:
            return self.eval(e.body, st, env)
        if t is False:
            return self.eval(e.orelse, st, env)
        s2 = st.copy()
        self.refine(e.test, st, env, True)
        self.refine(e.test, s2, env, False)
        a = b = None
        try:
            a = self.eval(e.body, st, env)
        except AbsRaise as x:
            exc = x
        try:
            b = self.eval(e.orelse, s2, env)
        except AbsRaise as x:
            if a is None:
                raise
            return a
        if a is None:
            st.become(s2)
            return b
        j, v = self.join_vals(st, a, s2, b)
        st.become(j)
        return v

    def e_BoolOp(self, e, st, env):
        isand = isinstance(e.op, ast.And)
        unknown = []
        for x in e.values:
            v = self.eval(x, st, env)
            t = self.truth(v, st)
            if t is None:
                unknown.append(v)
                continue
            if t is (not isand) and not unknown:
                return v
            if t is (not isand):
                return v if isinstance(v, V) and isinstance(v.c, bool) else TOP()
            last = v
        if unknown:
            return V(ty="bool", u=U1, w=None, lo=None, roots=frozenset().union(*[getattr(u, "roots", frozenset()) for u in unknown]))
        return last

    def e_UnaryOp(self, e, st, env):
        v = self.eval(e.operand, st, env)
        return nonconformal(self.lib.unop(self, st, type(e.op).__name__, v, e), v)

    def e_BinOp(self, e, st, env):
        a = self.eval(e.left, st, env)
        b = self.eval(e.right, st, env)
        return nonconformal(self.lib.binop(self, st, type(e.op).__name__, a, b, e), a, b)

    def e_Compare(self, e, st, env):
        left = self.eval(e.left, st, env)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st, env)
            r = self.lib.compare(self, st, type(op).__name__, left, right, e)
            if self.cfg.get("optree") and isinstance(r, V) and not r.is_const and isinstance(left, V) and isinstance(right, V):
                r = r.but(ld=self.lib.opid(type(op).__name__, self.lib.idof(left), self.lib.idof(right)))
            t = self.truth(r)
            if t is False:
                return r
            res = r if res is None or self.truth(res) is True else res
            left = right
        return res

    def e_Subscript(self, e, st, env):
        o = self.eval(e.value, st, env)
        i = self.eval(e.slice, st, env)
        return nonconformal(self.lib.getitem(self, st, o, i, e), o)

    def e_Slice(self, e, st, env):
        f = lambda x: self.eval(x, st, env) if x is not None else num(None)
        return EObj("slice", lo=f(e.lower), hi=f(e.upper), step=f(e.step))

    def e_Starred(self, e, st, env):
        return self.eval(e.value, st, env)

    def e_NamedExpr(self, e, st, env):
        v = self.eval(e.value, st, env)
        self.assign(e.target, v, st, env)
        return v

    def comp(self, e, st, env, elt):
        """Evaluate a comprehension: returns ('items', list) or ('seq', Seq)."""
        env2 = self.new(st, "env", None, **{"$parent": env, "$fn": self.obj(st, env).attrs["$fn"]})
        res = []

        def rec(gens):
            """Returns None if concrete."""
            if not gens:
                res.append(elt(env2))
                return None
            g = gens[0]
            it = self.eval(g.iter, st, env2)
            items = self.lib.concrete_items(self, st, it)
            if items is not None and len(items) <= 40:
                unk = None
                for x in items:
                    self.assign(g.target, x, st, env2)
                    skip = False
                    for c in g.ifs:
                        t = self.truth(self.eval(c, st, env2), st)
                        if t is False:
                            skip = True
                        elif t is None:
                            unk = Seq(None)
                    if not skip:
                        u = rec(gens[1:])
                        unk = unk or u
                return unk
            s = self.lib.to_seq(self, st, it, g.iter) or Seq(TOP())
            self.assign(g.target, s.elem, st, env2)
            filtered = bool(g.ifs)
            for c in g.ifs:
                self.eval(c, st, env2)
            rec(gens[1:])
            return Seq(None, None if filtered else s.n, s.lab if len(gens) == 1 else None, s.roots)

        unk = rec(e.generators)
        if unk is None:
            return "items", res
        el = None
        for x in res:
            el = x if el is None else self.join_vals(st, el, st.copy(), x)[1]
        return "seq", Seq(el if el is not None else TOP(), unk.n, unk.lab)

    def e_ListComp(self, e, st, env):
        k, v = self.comp(e, st, env, lambda en: self.eval(e.elt, st, en))
        self.lib.note_order(self, st, e, v)
        if k == "items":
            return self.new(st, "list", None, items=tuple(v))
        return self.new(st, "list", None, items=None, seq=v)

    def e_GeneratorExp(self, e, st, env):
        k, v = self.comp(e, st, env, lambda en: self.eval(e.elt, st, en))
        return Tup(v) if k == "items" else v

    def e_SetComp(self, e, st, env):
        k, v = self.comp(e, st, env, lambda en: self.eval(e.elt, st, en))
        return self.new(st, "set", None, items=tuple(v) if k == "items" else None, seq=v if k == "seq" else None)

    def e_DictComp(self, e, st, env):
        k, v = self.comp(e, st, env, lambda en: Tup([self.eval(e.key, st, en), self.eval(e.value, st, en)]))
        if k == "items" and all(isinstance(x.items[0], V) and x.items[0].is_const for x in v):
            return self.new(st, "dict", None, items={x.items[0].c: x.items[1] for x in v})
        el = v.elem if k == "seq" else (v[0] if v else TOP())
        return self.new(st, "dict", None, items=None, elem=el)

    def e_Call(self, e, st, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2:
            c = self.eval(e.args[0], st, env)
            if isinstance(c, ClsV):
                return EObj("super", cls=c.cls, obj=self.eval(e.args[1], st, env))
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fn = self.obj(st, env).attrs["$fn"]
            selfname = fn.node.args.args[0].arg if isinstance(fn.node, ast.FunctionDef) and fn.node.args.args else "self"
            return EObj("super", cls=fn.cls, obj=self.lookup(selfname, st, env))
        f = self.eval(e.func, st, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, env)
                it = self.lib.concrete_items(self, st, v)
                if it is not None:
                    args.extend(it)
                else:
                    s = self.lib.to_seq(self, st, v, a)
                    args.append(EObj("star", seq=s if s is not None else Seq(TOP())))
            else:
                args.append(self.eval(a, st, env))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st, env)
            if k.arg is None:
                if isinstance(v, Ref) and self.obj(st, v).kind == "dict" and isinstance(self.obj(st, v).attrs.get("items"), dict):
                    for kk, vv in self.obj(st, v).attrs["items"].items():
                        kw[kk] = vv
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e, st)

    # -- attributes
    def getattr(self, o, name, st, node=None):
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if ob.kind == "inst":
                if name in ob.attrs:
                    if self.jit and o.a <= self.jit[-1]:
                        self.captured((o.a, name), f"the attribute {name} of {ob.cls.name}", ob.attrs[name], node)
                        self.captured_content(st, (o.a, name, "$content"), f"the content of the attribute {name} of {ob.cls.name}", ob.attrs[name], node)
                    return ob.attrs[name]
                ms = self.prog.methods(ob.cls, name)
                if ms is not None:
                    getter = [m for m in ms if m.has("property")]
                    if getter and not any(x in getter[0].decos for x in ()):
                        self.calls += 1
                        return self.invoke(getter[0], None, [o], {}, node, st)
                    if any(m.has("classmethod") for m in ms):
                        return Fn(ms, None, ClsV(ob.cls))
                    if any(m.has("staticmethod") for m in ms):
                        return Fn(ms)
                    return Fn(ms, None, o)
                cs = self.class_state(ob.cls, name, st)
                if cs is not None:
                    return cs
                c = self.prog.class_const(ob.cls, name)
                if c is not None and isinstance(c, ast.Constant):
                    return num(c.value)
                r = self.lib.inst_attr(self, st, o, ob, name, node)
                if r is not None:
                    return r
                if not self.lib.lenient_class(self, ob.cls):
                    self.event("no_attr", node, cls=ob.cls.name, attr=name)
                    if ob.attrs.get("$full"):
                        raise AbsRaise("AttributeError")
                return TOP()
            if ob.kind == "ns":
                if name in ob.attrs:
                    return ob.attrs[name]
                self.event("no_attr", node, cls="SimpleNamespace", attr=name)
                return TOP()
            if ob.kind == "vs" and name == "names" and self.cfg.get("vsw") is not None:
                return self.cfg["vsw"].names()
            return BMeth(o, name)
        if isinstance(o, Ext):
            if o.path.startswith("mod:"):
                m = self.prog.modules[o.path[4:]]
                return self.module_name(m, name, st, node)
            return self.lib.ext_attr(self, st, o, name)
        if isinstance(o, ClsV):
            if name == "__name__":
                return num(o.cls.name)
            ms = self.prog.methods(o.cls, name)
            if ms is not None:
                if any(m.has("classmethod") for m in ms):
                    return Fn(ms, None, o)
                return Fn(ms)
            cs = self.class_state(o.cls, name, st)
            if cs is not None:
                return cs
            c = self.prog.class_const(o.cls, name)
            if isinstance(c, ast.Constant):
                return num(c.value)
            return TOP()
        if isinstance(o, EObj) and o.kind == "super":
            for c in self.prog.mro(o.f["cls"])[1:]:
                if name in c.own:
                    return Fn(c.own[name], None, o.f["obj"])
            return EObj("noop")
        if isinstance(o, Fn) and ("function", o.fns[0].where, name) in st.meta:
            return st.meta["function", o.fns[0].where, name]
        return self.lib.value_attr(self, st, o, name, node)

    def setattr(self, o, name, v, st, node):
        if self.cfg.get("persist") and isinstance(o, ClsV):
            st.meta[("class", o.cls.name, name)] = v
        if self.cfg.get("persist") and isinstance(o, Fn):
            st.meta[("function", o.fns[0].where, name)] = v
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if self.jit and o.a <= self.jit[-1]:
                self.event("jit_effect", node, what=f"sets attribute {name} of an object that outlives the call")
            if ob.kind == "inst":
                ms = self.prog.methods(ob.cls, name)
                if ms:
                    setter = [m for m in ms if any(d.endswith(".setter") for d in m.decos)]
                    if setter:
                        self.invoke(setter[-1], None, [o, v], {}, node, st)
                        return
                self.event("setattr", node, cls=ob.cls.name, attr=name)
            self.set(st, o, name, v)

    # -- calls
    def call(self, f, args, kw, node, st):
        self.calls += 1
        if isinstance(f, Fn):
            if f.self is not None:
                args = [f.self] + list(args)
            fn = self.pick(f, args, kw, st, node)
            if fn is None:
                self.event("bind", node, callee=f.fns[0].where, why="no overload accepts the arguments " + self.describe(args, kw, f.self is not None))
                raise AbsRaise("TypeError")
            if f.jit or fn.has("jit"):
                self.event("jit_enter", node, fn=fn.where)
                self.jit.append(self.addr)
                self.jitkeep.append(f)
                self.jitfns.append(("fn", id(f)) if f.env is not None or f.self is not None else ("fn", fn.where))
                self._jitcall = True
                try:
                    return self.lib.jit_result(self, st, self.invoke(fn, f.env, args, kw, node, st), node)
                finally:
                    self.jit.pop()
                    self.jitfns.pop()
            return self.invoke(fn, f.env, args, kw, node, st)
        if isinstance(f, ClsV):
            return self.construct(f.cls, args, kw, node, st)
        if isinstance(f, Ref):
            ob = self.obj(st, f)
            if ob.kind == "inst":
                ms = self.prog.methods(ob.cls, "__call__")
                if ms:
                    return self.call(Fn(ms, None, f), args, kw, node, st)
                r = self.lib.inst_call(self, st, f, ob, args, kw, node)
                if r is not None:
                    return r
            return TOP()
        try:
            return nonconformal(self.lib.call(self, st, f, args, kw, node), *args)
        except (AbsRaise, AnalysisError, RecursionError):
            raise
        except Exception as x:
            if self.cfg.get("debug"):
                raise
            self.crash(x, node)
            return TOP()

    def crash(self, x, node):
        """The model of a library function does not apply: the result is unknown."""
        tb = x.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        self.unsup(f"model of a library function: {type(x).__name__}: {str(x)[:80]} ({tb.tb_frame.f_code.co_name}:{tb.tb_lineno})", node)

    def describe(self, args, kw, bound):
        n = len(args) - (1 if bound else 0)
        return f"({n} positional" + ("; " + ", ".join(sorted(kw)) if kw else "") + ")"

    def construct(self, cls, args, kw, node, st):
        r = self.new(st, "inst", cls)
        ms = self.prog.methods(cls, "__init__")
        if ms:
            self.call(Fn(ms, None, r), args, kw, node, st)
        return r

    def pick(self, f, args, kw, st, node):
        if not any(d.split("(")[0].split(".")[-1] in ("_dispatch", "dispatch") for fn in f.fns for d in fn.decos):
            fn = f.fns[-1]
            b = bind(fn, args, kw)
            if isinstance(b, str):
                self.event("bind", node, callee=fn.where, why=b)
                raise AbsRaise("TypeError")
            return fn
        # Dispatch considers the positional arguments only.
        cands = []
        star = any(isinstance(x, EObj) and x.kind == "star" for x in args)
        for fn in f.fns:
            a, pos = params(fn)
            if not star and not (len(pos) - len(a.defaults) <= len(args) and (a.vararg or len(args) <= len(pos))):
                continue
            sc = 0
            ok = True
            ann = annotations(fn)
            for p, v in zip(pos, args):
                if isinstance(v, EObj) and v.kind == "star":
                    break
                if p in ann:
                    s = self.ann_match(ann[p], v, st, fn)
                    if s is False:
                        ok = False
                        break
                    sc += 1 if s else 0
            if ok:
                cands.append((sc, fn))
        if not cands:
            return None
        best = max(s for s, _ in cands)
        fn = [fn for s, fn in cands if s == best][-1]
        b = bind(fn, args, kw)
        if isinstance(b, str):
            self.event("bind", node, callee=fn.where, why=b)
            raise AbsRaise("TypeError")
        return fn

    def ann_match(self, a, v, st, fn):
        """Does the value match the annotation? True, False, or None if unknown."""
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            nm = a.value
        elif isinstance(a, ast.Subscript) and ast.unparse(a.value).split(".")[-1] in ("Union", "Optional"):
            opts = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            rs = [self.ann_match(o, v, st, fn) for o in opts]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        else:
            nm = ast.unparse(a).split(".")[-1]
        if isinstance(v, V) and not v.is_const and v.sh is None and v.tok is None and v.nf is None and v.ty is None and v.u is None:
            return None
        if not isinstance(v, (V, Ref, Tup, Seq, PS, EObj)):
            return None
        if isinstance(v, EObj) and nm not in ("SimpleNamespace", "list", "None", "Struct"):
            return True if v.kind.lower() == nm.lower() else None
        if nm == "RandomState":
            return isinstance(v, V) and v.tok is not None
        if nm in ("Numeric", "NPOrNum"):
            if isinstance(v, V):
                return v.tok is None and not (v.is_const and not isinstance(v.c, (int, float, complex))) and v.ty != "str"
            return False
        if nm in ("Int", "int"):
            if isinstance(v, V):
                if v.is_const:
                    return isinstance(v.c, int)
                if v.ty in ("int",):
                    return True
                return None if v.sh in (None, ()) and v.tok is None else False
            return False
        if nm in ("bool", "Bool"):
            return isinstance(v, V) and (isinstance(v.c, bool) if v.is_const else None)
        if nm in ("float", "Float"):
            return isinstance(v, V) and (isinstance(v.c, (float, int)) if v.is_const else None)
        if nm == "str":
            return isinstance(v, V) and (isinstance(v.c, str) if v.is_const else v.ty == "str" or None if v.ty in (None, "str") else False)
        if nm == "None":
            return isinstance(v, V) and v.is_const and v.c is None
        if nm == "SimpleNamespace":
            return isinstance(v, Ref) and self.obj(st, v).kind == "ns"
        if nm == "list":
            return isinstance(v, Ref) and self.obj(st, v).kind == "list"
        if nm in ("dict", "set", "tuple"):
            if isinstance(v, Ref):
                return self.obj(st, v).kind == nm
            return True if isinstance(v, Tup) and nm == "tuple" else None if isinstance(v, (Seq, PS)) else False
        if nm in ("Struct",):
            return isinstance(v, PS)
        if nm == "Model":
            return isinstance(v, Ref) and self.obj(st, v).kind == "inst" and self.prog.subclass(self.obj(st, v).cls, "AbstractGPCM")
        if nm in ("PromisedPoly", "Poly"):
            return isinstance(v, EObj) and v.kind == "poly" or (isinstance(v, Ref) and self.obj(st, v).kind == "inst" and self.obj(st, v).cls.name == "Poly")
        c = self.prog.find_class(fn.module, nm)
        if c is None and fn.module.classes.get(nm):
            c = fn.module.classes[nm]
        if c is not None:
            if isinstance(v, Ref) and self.obj(st, v).kind == "inst":
                return c in self.prog.mro(self.obj(st, v).cls)
            return False
        return None

    def invoke(self, fn, env, args, kw, node, st):
        h = self.hooks.get(fn.where) or self.hooks.get(fn.qual)
        if h is not None:
            r = h(self, st, fn, args, kw, node)
            if r is not NotImplemented:
                return r
        parted = self.cfg.get("decide") is not None
        if len(self.stack) > (MAXDEPTH * 6 if parted else MAXDEPTH):
            return self.unsup("depth")
        if sum(1 for f in self.stack if f.node is fn.node) >= (250 if parted else 3):
            raise AbsRaise("$recursion")
        b = bind(fn, args, kw)
        if isinstance(b, str):
            self.event("bind", node, callee=fn.where, why=b)
            raise AbsRaise("TypeError")
        if any(fn.has(d) for d in ("instancemethod", "priormethod", "posteriormethod")) and args and isinstance(args[0], Ref):
            inst = self.lib.instantiate(self, st, args[0])
            k = next(iter(b["pos"]))
            b["pos"][k] = inst
        self.visited[fn.where] = self.visited.get(fn.where, 0) + 1
        parent = env
        e = self.new(st, "env", None, **{"$parent": parent, "$fn": fn})
        self.stack.append(fn)
        try:
            vals = dict(b["pos"])
            for p, d in b["defaults"].items():
                vals[p] = self.eval(d, st, e) if not self.cfg.get("persist") or isinstance(d, ast.Constant) or fn.parent or fn.name == "<lambda>" else self.lasting(("default", fn.where, p), d, fn.module, st)
            if fn.has("cast") or fn.has("jit") or getattr(self, "_jitcall", False):
                # The function sees copies.
                b["rest"] = [v.but(roots=frozenset()) if isinstance(v, V) else v for v in b["rest"]]
                b["extra"] = {k: v.but(roots=frozenset()) if isinstance(v, V) else v for k, v in b["extra"].items()}
                for p in b["pos"]:
                    if isinstance(vals.get(p), V):
                        vals[p] = vals[p].but(roots=frozenset())
                self._jitcall = False
            if b["vararg"] is not None:
                vals[b["vararg"]] = Tup(b["rest"])
            if b["kwarg"] is not None:
                if "**" in b["extra"]:
                    vals[b["kwarg"]] = self.new(st, "dict", None, items=None)
                else:
                    vals[b["kwarg"]] = self.new(st, "dict", None, items=dict(b["extra"]))
            for p, v in vals.items():
                self.set(st, e, p, v)
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, st, e)
            f = self.block(fn.node.body, st, e)
            res = f.ret
            if f.next is not None:
                r2 = (f.next, num(None))
                res = self.join_vals(res[0], res[1], *r2) if res else r2
            if res is None:
                raise AbsRaise(f.exc[0][0] if f.exc else "$bottom", f.exc[0][1] if f.exc and self.cfg.get("decide") else None)
            if f.exc:
                self.event("may_raise", node, fn=fn.where, excs=sorted(set(x[0] for x in f.exc)))
            st.become(res[0])
            return res[1]
        finally:
            self.stack.pop()


def nonconformal(r, *args):
    """What is computed from tensors that do not conform is never computed."""
    if isinstance(r, V) and not r.is_const and (r.sh is None or isinstance(r.sh, tuple)):
        for a in args:
            if isinstance(a, V) and isinstance(a.sh, Bad):
                return r.but(sh=a.sh)
    return r


def params(fn):
    a = fn.node.args
    pos = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
    return a, pos


def annotations(fn):
    a = fn.node.args
    return {x.arg: x.annotation for x in list(getattr(a, "posonlyargs", [])) + a.args + a.kwonlyargs if x.annotation is not None}


def bind(fn, args, kw):
    """Bind arguments. Returns a dictionary or an error string."""
    a, pos = params(fn)
    kwonly = [x.arg for x in a.kwonlyargs]
    out = dict(pos={}, defaults={}, vararg=a.vararg.arg if a.vararg else None, kwarg=a.kwarg.arg if a.kwarg else None, rest=[], extra={})
    star = any(isinstance(x, EObj) and x.kind == "star" for x in args)
    dstar = "**" in kw
    i = 0
    for x in args:
        if isinstance(x, EObj) and x.kind == "star":
            for p in pos[i:]:
                if p not in kw:
                    out["pos"][p] = x.f["seq"].elem
            i = len(pos)
            if out["vararg"]:
                out["rest"].append(x)
            continue
        if i < len(pos):
            out["pos"][pos[i]] = x
            i += 1
        elif out["vararg"]:
            out["rest"].append(x)
        else:
            return f"takes {len(pos)} positional arguments but {len(args)} were given"
    for k, v in kw.items():
        if k == "**":
            out["extra"]["**"] = v
            continue
        if k in pos or k in kwonly:
            if k in out["pos"]:
                return f"got multiple values for argument '{k}'"
            out["pos"][k] = v
        elif out["kwarg"]:
            out["extra"][k] = v
        else:
            return f"got an unexpected keyword argument '{k}'"
    defs = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    for k, d in zip(kwonly, a.kw_defaults):
        if d is not None:
            defs[k] = d
    for p in pos + kwonly:
        if p not in out["pos"]:
            if p in defs:
                out["defaults"][p] = defs[p]
            elif dstar:
                out["pos"][p] = TOP()
            else:
                return f"missing required argument '{p}'"
    return out
