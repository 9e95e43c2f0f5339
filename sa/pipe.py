"""Pipelines: the sequences of public operations by which users exercise a model, with the
integrals and covariances of the models replaced by their contracts (which are checked
separately, against the code of every model)."""
from .ctx import *
from .interp import bind

HALF = Fr(1, 2)


class Units:
    """Units of the quantities of a model."""

    def __init__(self, model):
        rough = model == "RGPCM"
        self.model = model
        self.U = U() if rough else U(Y=1, T=Fr(-1, 2))  # Inducing variables of the filter.
        self.n_z = N.sym("m_max", 0, "+").scale(2) + N.const(1) if rough else n_z
        self.noise = U(Y=2)
        self.K_u = upow(self.U, 2)
        self.K_z = U1
        self.i_hx = U(Y=2)
        self.I_hz = U(Y=2)
        # Integrals over the excitation of the filter with its inducing variables.
        self.I_uz = U(Y=1) if rough else U(Y=2, T=Fr(-1, 2))
        self.I_ux = U(Y=2) if rough else U(Y=4, T=-1)


def contract_fns(model):
    """Name to (parameters, unit, shape, flags, shift)"""
    u = Units(model)
    return {
        "compute_K_u": u.K_u, "compute_K_z": u.K_z, "compute_i_hx": u.i_hx, "compute_I_ux": u.I_ux,
        "compute_I_hz": u.I_hz, "compute_I_uz": u.I_uz,
    }


def tkey(v):
    return repr(v.nf) if isinstance(v, V) and v.nf is not None else "?" + str(id(v))


def badarg(I, node, what, v):
    """Checks on a time argument; a unit with an inconsistency if it is not a time."""
    if v.u in (None, ANY) or not isinstance(v.u, tuple):
        return ()
    if v.u == U(T=1):
        return ()
    for b in ("T", "Y"):
        if ubad(v.u, b):
            return tuple((k, e) for k, e in v.u if isinstance(e, Bad))
    return (("T", Bad(f"{I.loc(node)}: {what} should be a time, but has unit [{ustr(v.u)}]")),)


def hooks_for(model):
    us = Units(model)
    nu, nz = n_u, us.n_z

    def wrap(f):
        def h(I, st, fn, args, kw, node):
            b = bind(fn, args, kw)
            if isinstance(b, str):
                return NotImplemented  # The interpreter reports it.
            a = {k: (L.asv(I, st, v) if k != "model" and not isinstance(v, Ref) else v) for k, v in b["pos"].items()}
            names = [p for p in fn.params() if p in a] if hasattr(fn, "params") else list(b["pos"])
            vals = [a[p] for p in names[1:]]
            vals = [None if isinstance(v, V) and v.is_const and v.c is None else v for v in vals]
            I.visited[fn.where + " (contract)"] = I.visited.get(fn.where + " (contract)", 0) + 1
            return f(I, st, vals, node)
        return h

    def mk(name, shape, u, flags="", w=Z, bad=(), tg=()):
        v = O.atom(PREFIX[0] + name, shape, flags, u if not bad else tuple(sorted({**dict(u), **dict(bad)}.items())), w)
        return v.but(tags=frozenset({"h"}) | frozenset(tg))

    def K_u(I, st, vals, node):
        return mk("K_u", (nu, nu), us.K_u, "SM")

    def K_z(I, st, vals, node):
        return mk("K_z", (nz, nz), us.K_z, "SM")

    def wt(*vs):
        """Shift weight of an integral in terms of times."""
        ws = [v.w for v in vs]
        if any(w is None for w in ws):
            return None
        return ws

    def i_hx(I, st, vals, node):
        vals = (vals + [None, None])[:2]
        t1, t2 = [v if v is not None else num(0.0) for v in vals]
        sh = broadcast(t1.sh, t2.sh, I.loc(node))
        bad = badarg(I, node, "the first time", t1) or badarg(I, node, "the second time", t2)
        ws = wt(t1, t2)
        w = None if ws is None else Z if ws[0] == ws[1] else ws[0] - ws[1]
        if not isinstance(sh, tuple):
            return V(u=us.i_hx, lo=(), sh=sh, w=w, tags=frozenset({"h"}) | O.tags(t1, t2))
        if tkey(t1) == tkey(t2):
            nm = "i_hx0"  # Stationary.
        else:
            nm = "i_hx[" + ",".join(sorted((tkey(t1), tkey(t2)))) + "]"
        return mk(nm, sh, us.i_hx, "", w, bad, O.tags(t1, t2))

    def I_ux(I, st, vals, node):
        vals = (vals + [None, None])[:2]
        t1, t2 = vals
        sh = ()
        bad = ()
        for t in (t1, t2):
            if t is not None:
                bad = bad or badarg(I, node, "the time", t)
                if not O.known(t):
                    return V(u=us.I_ux, lo=(), w=None, tags=frozenset({"h"}) | O.tags(t))
                if len(t.sh) != 1:
                    return V(u=us.I_ux, lo=(), sh=Bad(f"{I.loc(node)}: times of shape {shape_str(t.sh)} where a vector is needed"), tags=frozenset({"h"}))
                sh += (t.sh[0],)
        if t1 is None and t2 is None:
            return mk("I_ux", (nu, nu), us.I_ux, "S")
        w1 = t1.w if t1 is not None else Z
        w2 = t2.w if t2 is not None else Z
        w = None if w1 is None or w2 is None else w1 - w2
        nm = "I_ux[" + ",".join((tkey(t1) if t1 is not None else "0", tkey(t2) if t2 is not None else "0")) + "]"
        return mk(nm, sh + (nu, nu), us.I_ux, "", w, bad, O.tags(*[t for t in (t1, t2) if t is not None]))

    def per_time(name, u, dims, flags):
        def f(I, st, vals, node):
            t = vals[0]
            bad = badarg(I, node, "the time", t)
            if not O.known(t):
                return V(u=u, lo=(), w=Z if t.w is not None and t.w == ONE else None, tags=frozenset({"h"}) | O.tags(t))
            if len(t.sh) != 1:
                return V(u=u, lo=(), sh=Bad(f"{I.loc(node)}: times of shape {shape_str(t.sh)} where a vector is needed"), tags=frozenset({"h"}))
            w = None if t.w is None else Z if t.w == ONE else t.w - ONE
            return mk(f"{name}[{tkey(t)}]", (t.sh[0],) + dims, u, flags, w, bad, O.tags(t))
        return f

    return {
        "compute_K_u": wrap(K_u), "compute_K_z": wrap(K_z), "compute_i_hx": wrap(i_hx), "compute_I_ux": wrap(I_ux),
        "compute_I_hz": wrap(per_time("I_hz", us.I_hz, (nz, nz), "S")), "compute_I_uz": wrap(per_time("I_uz", us.I_uz, (nu, nz), "")),
    }


class Contract:
    """Contract of the stored variables: each is a constant with the properties of its initial
    value, but initial values of the variational parameters are arbitrary, and such a parameter
    has the unit that its role in the natural parametrisation gives it."""

    def __init__(self, model, keep=False):
        self.us = Units(model)
        self.store = {}
        self.writes = []
        self.keep = keep

    def role(self, sh):
        """Unit by the shape of a natural parameter."""
        us = self.us
        if isinstance(sh, tuple) and len(sh) == 2:
            for d, unit in ((n_u, us.U), (us.n_z, U1)):
                if sh == (d, d):
                    return upow(unit, 2), True
                if sh == (d, ONE):
                    return unit, False
        return None

    def __call__(self, I, st, path, op, init):
        if op is None:
            return self.store.get(path)
        if init is None:
            return self.store.get(path)
        v = L.asv(I, st, init)
        if path in self.store and op is not None and path not in st.meta.get("rereg", ()):
            return self.store[path]
        if not isinstance(v.sh, tuple):
            self.store[path] = v.but(roots=frozenset(), tags=init_tags(v) | {"h", "v:" + "/".join(map(str, path))})
            return self.store[path]
        u = v.u
        role = self.role(v.sh)
        pd = op in ("positive_definite", "pd")
        arbitrary = u in (U1, ANY, None)
        if role and arbitrary and len(path) > 1:
            u = role[0]
        flags = "+" if op in ("positive", "pos", "bounded", "bnd") and v.sh == () else ""
        if pd or (role and role[1] and pd):
            flags += "SM"
        name = "/".join(map(str, path))
        x = O.atom(PREFIX[0] + name, v.sh, flags, u if u != ANY else None, v.w)
        x = x.but(tags=init_tags(v) | {"h", "v:" + name})
        self.store[path] = x
        return x


class Pipe(Run):
    """Execution of the public operations of a model under a scheme."""

    def __init__(self, prog, model, scheme, mode="explicit", nf=True, cfg=None, contracts=True, after=None):
        self.contract = Contract(model)
        if after is None:
            super().__init__(prog, self.contract, hooks_for(model) if contracts else None, cfg)
        else:
            # In the same process, from the same global random state.
            self.prog, self.I, self.failed = after.prog, after.I, None
            self.I.vs_contract, self.I.hooks = self.contract, hooks_for(model) if contracts else {}
            self.I.evkeys, self.I.nlab, self.I.stats = set(), 0, {}
            self.st = State(after.st.heap, meta={k: v for k, v in after.st.meta.items() if k and k[0] in ("global", "class", "default", "function")})
        self.I.nfon = nf
        self.model, self.scheme = model, scheme
        self.out = {}
        self.raised = {}
        self.mark = {}
        self.gtoks = {}
        self.t, self.y = tin("t", (n,), T=1, w=1), tin("y", (n,), Y=1)
        self.tp = tin("t_pred", (n_p,), T=1, w=1)
        self.tk = tin("t_k", (n_k,), T=1)
        self.N2 = N.sym("n2", 0, "+")
        self.t2, self.y2 = tin("t2", (self.N2,), T=1, w=1), tin("y2", (self.N2,), Y=1)
        kw = model_args(model, mode)
        kw["scheme"] = num(scheme)
        self.m = self.stage("build", lambda: self.build(model, **kw))

    def stage(self, name, f):
        a = len(self.I.events)
        self.I.stage = name
        g = self.st.gtok
        try:
            r = f()
            self.out[name] = r
        except AbsRaise as e:
            self.raised[name] = e.name
            r = None
        self.mark[name] = (a, len(self.I.events))
        self.gtoks[name] = (g, self.st.gtok, self.st.gtok in self.st.consumed)
        return r

    def events(self, *stages):
        for s in stages or self.mark:
            a, b = self.mark.get(s, (0, 0))
            for e in self.I.events[a:b]:
                yield s, e

    def op(self, name, obj, meth, *args, **kw):
        if obj is None:
            self.raised.setdefault(name, "$skipped")
            return None
        return self.stage(name, lambda: self.method(obj, meth, *args, **kw))
