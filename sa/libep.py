"""Kernels, Gaussian processes, normal distributions and other opaque library objects."""
from . import nf as N
from .dom import *
from . import ops as O
from .ops import Z


def _asv(I, st, x):
    from . import lib
    return lib.asv(I, st, x)


def kernel(base, scale=None, stretch=None, factors=()):
    from .interp import EObj
    return EObj("kernel", base=base, scale=scale, stretch=stretch, factors=tuple(factors))


def kernel_eval(I, st, k, t1, t2, node):
    """Evaluate a kernel at a column of inputs and a row of inputs."""
    if k.f["base"] not in ("EQ", "Exp"):
        return TOP()
    d = O.vadd(t1, t2, -1, I.loc(node))
    if k.f["stretch"] is not None:
        d = O.vdiv(d, k.f["stretch"], I.loc(node))
    if k.f["base"] == "EQ":
        e = O.vmul(num(-0.5), O.vpow(d, num(2)))
    else:
        e = O.vneg(O.vfun("abs", d))
    r = O.vfun("exp", e, I.loc(node) + ": kernel")
    if k.f["scale"] is not None:
        r = O.vmul(k.f["scale"], r)
    for f in k.f["factors"]:
        for t in (t1, t2):
            v = I.call(f, [t], {}, node, st)
            r = O.vmul(r, _asv(I, st, v), I.loc(node))
    return r


def binop(I, st, op, a, b, node):
    from .interp import EObj, Fn, Tup
    for x, y in ((a, b), (b, a)):
        if isinstance(x, EObj) and x.kind == "kernel":
            if op == "Mult":
                if isinstance(y, (Fn,)) or isinstance(y, EObj) and y.kind in ("partial", "jit"):
                    return EObj("kernel", **dict(x.f, factors=x.f["factors"] + (y,)))
                if isinstance(y, V):
                    s = x.f["scale"]
                    return EObj("kernel", **dict(x.f, scale=y if s is None else O.vmul(s, y)))
            return EObj("kernel", base="?", scale=None, stretch=None, factors=())
    if isinstance(a, EObj) and a.kind == "gp" and op == "BitOr":
        if isinstance(b, Tup) and len(b.items) == 2:
            return EObj("gp", kern=a.f["kern"], cond=a.f.get("cond", ()) + (b,))
        return TOP()
    if isinstance(a, EObj) and a.kind == "normal" or isinstance(b, EObj) and b.kind == "normal":
        return TOP()
    if isinstance(a, EObj) and a.kind == "nt" and isinstance(b, EObj) and b.kind == "nt" and op == "Add":
        return Tup(list(a.f["items"].values()) + list(b.f["items"].values()))
    return TOP()


def unop(I, st, op, v, node):
    return TOP()


def normal(mean, var):
    from .interp import EObj
    return EObj("normal", mean=mean, var=var)


def draw_state(I, st, args, kw, node):
    """Extract an explicit random state from arguments: (token value or None, rest)."""
    args = list(args)
    if "state" in kw:
        return kw["state"], args
    if args and isinstance(args[0], V) and args[0].tok is not None:
        return args[0], args[1:]
    return None, args


def implicit(I, st, node, stream="jax"):
    """A draw from the global random state. The stream of NumPy advances by itself; a draw from
    it while tracing only matters if it reaches the result of the traced function."""
    if stream == "np":
        I.event("implicit_draw", node)
        return
    I.consume(st, st.gtok, node)
    st.gtok = I.newtok("global", st.gtok)
    if I.jit:
        I.event("jit_effect", node, what="draws from global randomness")
    I.event("implicit_draw", node)


def explicit(I, st, state, node):
    I.consume(st, state.tok, node)
    return V(tok=I.newtok("draw", *([state.tok] if state.tok else [])), lo=None)


_eps = [0]


def noise_like(I, rows, cols, node):
    _eps[0] += 1
    return O.atom(f"eps{_eps[0]}", (rows, cols)).but(tags=frozenset(["rnd"]))


def sample_normal(I, st, mean, var, args, kw, node):
    from .interp import Tup
    state, rest = draw_state(I, st, args, kw, node)
    n = kw.get("num", rest[0] if rest else num(1))
    cols = O.vdim(n) if isinstance(n, V) else O.fresh_unknown()
    L = O.chol(var)
    rows = var.sh[-1] if O.known(var) and var.sh else O.fresh_unknown()
    s = O.mm2(L, noise_like(I, rows, cols, node), I.loc(node))
    if mean is not None and not (mean.is_const and mean.c == 0):
        s = O.vadd(mean, s, 1, I.loc(node))
    t = set(s.tags) | {"rnd"}
    if "h" in t:
        t.add("hs")
    s = s.but(tags=frozenset(t), roots=frozenset())
    if I.cfg.get("optree"):
        from . import lib as L
        s.ld = L.opid("sample of normal", L.idof(mean) if mean is not None else None, L.idof(var), L.idof(n), L.tokid(state.tok if state is not None else st.gtok))
    if state is None:
        implicit(I, st, node)
        r = s.but(tags=s.tags | {"grnd:" + I.loc(node)})
        r.ld = s.ld
        return r
    return Tup([explicit(I, st, state, node), s])


def emethod(I, st, o, name, args, kw, node):
    from .interp import EObj, Tup
    if o.kind == "noop":
        return EObj("noop")
    if o.kind == "kernel":
        if name == "stretch":
            s = _asv(I, st, args[0])
            p = o.f["stretch"]
            return EObj("kernel", **dict(o.f, stretch=s if p is None else O.vmul(p, s)))
        return TOP()
    if o.kind == "normal":
        if name == "sample":
            return sample_normal(I, st, o.f["mean"], o.f["var"], args, kw, node)
        if name in ("kl", "logpdf", "entropy"):
            return V(u=U1, lo=None, sh=(), w=Z, tags=O.tags(o.f["mean"], o.f["var"]))
        return TOP()
    if o.kind == "fdd":
        gp, t = o.f["gp"], o.f["t"]
        if name == "sample":
            state, rest = draw_state(I, st, args, kw, node)
            t1 = O.expand(t, len(t.sh)) if O.known(t) and len(t.sh) == 1 else t
            t2 = O.expand(t, 0) if O.known(t) and len(t.sh) == 1 else t
            K = kernel_eval(I, st, gp.f["kern"], t1, t2, node)
            noise = kw.get("noise")
            rows = t.sh[0] if O.known(t) and t.sh else O.fresh_unknown()
            u = upow(K.u, O.HALF)
            w = Z if O.zero_w(K.w) else None
            tg = set(O.tags(K))
            for c in gp.f.get("cond", ()):
                f, x = c.items
                x = _asv(I, st, x)
                tu = f.f["t"] if isinstance(f, EObj) and f.kind == "fdd" else TOP()
                if O.known(tu) and len(tu.sh) == 1:
                    C = kernel_eval(I, st, gp.f["kern"], t1, O.expand(tu, 0), node)
                    if not O.zero_w(C.w):
                        w = None
                    K2 = kernel_eval(I, st, gp.f["kern"], O.expand(tu, 1), O.expand(tu, 0), node)
                    m = O.mm2(C, O.mm2(O.inv(K2), x, I.loc(node)), I.loc(node))
                    u = uadd(u, m.u, I.loc(node) + ": the sample and the data it is conditioned on")
                    if isinstance(m.sh, Bad):
                        rows = m.sh
                    tg |= O.tags(x) | O.tags(C)
                I.event("gp_condition", node, unit=ustr(u))
            h = V(u=u, lo=(), sh=rows if isinstance(rows, Bad) else (rows, ONE), w=w, tags=frozenset(tg | {"rnd"}))
            if I.cfg.get("gpsamples") is not None:
                g = I.cfg["gpsamples"]
                if not isinstance(rows, Bad):
                    h = O.atom(f"gp{len(g) + 1}", (rows, ONE), "", None).but(tags=h.tags)
                g.append(dict(v=h, t=t, noise=noise is not None and not (isinstance(noise, V) and noise.is_const and not noise.c), loc=I.loc(node), cond=[(c.items[0].f["t"] if isinstance(c.items[0], EObj) and c.items[0].kind == "fdd" else TOP(), _asv(I, st, c.items[1])) for c in gp.f.get("cond", ())]))
            if state is None:
                implicit(I, st, node)
                return h
            return Tup([explicit(I, st, state, node), h])
        return TOP()
    if o.kind == "nt":
        if name == "_asdict":
            return I.new(st, "dict", None, items=dict(o.f["items"]))
        if name == "_replace":
            return EObj("nt", items=dict(o.f["items"], **kw), name=o.f.get("name"))
        return TOP()
    return TOP()


def ecall(I, st, f, args, kw, node):
    return TOP()
