"""Units, offsets, shapes and shift weights of everything the public interface returns
(C01, C02, C04, C05), over all models and approximation schemes."""
from .pipe import *
from .report import where_of
from . import lib as L

KINDS = {"C01": "T", "C02": "Y", "C04": "w", "C05": "sh"}
LN10 = N.fn("log", N.const(10)).pow(-1).scale(10)


def run_pipe(model, scheme, mode="explicit", nf=True, cfg=None, ops=None, prog=None, after=None):
    p = Pipe(prog or Program(), model, scheme, mode, nf, cfg, after=after)
    ns = V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym("num", 0, "+"))
    seq = [
        ("elbo before fitting", lambda: p.op("elbo before fitting", p.m, "elbo", p.t, p.y)),
        ("fit", lambda: p.op("fit", p.m, "fit", p.t, p.y)),
        ("elbo", lambda: p.op("elbo", p.m, "elbo", p.t, p.y)),
        ("condition", lambda: setattr(p, "post", p.op("condition", p.m, "condition", p.t, p.y))),
        ("predict", lambda: p.op("predict", p.post, "predict", p.tp)),
        ("predict_kernel", lambda: p.op("predict_kernel", p.post, "predict_kernel", p.tk)),
        ("predict_kernel()", lambda: p.op("predict_kernel()", p.post, "predict_kernel")),
        ("sample_kernel", lambda: p.op("sample_kernel", p.post, "sample_kernel", p.tk, num_samples=ns)),
        ("predict_psd", lambda: p.op("predict_psd", p.post, "predict_psd")),
        ("predict_psd(t_k)", lambda: p.op("predict_psd(t_k)", p.post, "predict_psd", p.tk)),
        ("predict_fourier", lambda: p.op("predict_fourier", p.post, "predict_fourier")),
        ("predict_filter", lambda: p.op("predict_filter", p.post, "predict_filter")),
        ("predict_filter(min_phase=False)", lambda: p.op("predict_filter(min_phase=False)", p.post, "predict_filter", min_phase=num(False))),
        ("prior predict_kernel", lambda: p.op("prior predict_kernel", p.m, "predict_kernel", p.tk)),
        ("prior predict_filter", lambda: p.op("prior predict_filter", p.m, "predict_filter", min_phase=num(False))),
        ("fit again", lambda: p.op("fit again", p.post, "fit", p.t2, p.y2)),
        ("elbo again", lambda: p.op("elbo again", p.post, "elbo", p.t2, p.y2)),
        ("condition again", lambda: setattr(p, "post2", p.op("condition again", p.post, "condition", p.t2, p.y2))),
        ("predict again", lambda: p.op("predict again", p.post2, "predict", p.tp)),
        ("sample", lambda: p.op("sample", p.m, "sample", p.t)),
        ("sample normalised", lambda: p.op("sample normalised", p.m, "sample", p.t, normalise=num(True))),
    ]
    p.post = p.post2 = None
    for nm, f in seq:
        if ops is None or nm in ops:
            f()
    p.num = ns.nf
    return p


def comps(p, v):
    """Components of a result: list of (name, tensor)."""
    I, st = p.I, p.st
    if isinstance(v, EObj) and v.kind == "nt":
        return [(k, L.asv(I, st, x)) for k, x in v.f["items"].items()]
    if isinstance(v, Tup):
        return [(str(i), L.asv(I, st, x)) for i, x in enumerate(v.items)]
    return [("", L.asv(I, st, v))]


BAND = ("mean", "err_68_lower", "err_68_upper", "err_95_lower", "err_95_upper", "err_99_lower", "err_99_upper")


def expected(p):
    """Yields (operation, component, dict(T, Y, loT, loY, sh, w))."""
    n, n2, num_ = globals()["n"], p.N2, p.num
    us = p.contract.us
    S = ()
    for op, m in (("elbo before fitting", n), ("elbo", n), ("elbo again", n2)):
        yield op, "", dict(T=0, Y=0, loY=-m, loT=N.NF(), sh=S, w=0)
    for op in ("predict", "predict again"):
        yield op, "0", dict(T=0, Y=1, sh=(n_p,), w=0)
        yield op, "1", dict(T=0, Y=2, sh=(n_p,), w=0)

    def band(op, x, y, nx, count=None, has_var=True, lo=None, xw=0):
        d = dict(T=x.get("T", 0), Y=x.get("Y", 0), w=xw)
        if nx is not None:
            d["sh"] = (nx,)
        yield op, "x", d
        for b in BAND:
            d = dict(T=y.get("T"), Y=y.get("Y"), w=0, **(lo or {}))
            if nx is not None:
                d["sh"] = (nx,)
            yield op, b, d
        if has_var:
            d = dict(T=None if y.get("T") is None else 2 * y["T"], Y=None if y.get("Y") is None else 2 * y["Y"], w=0)
            if nx is not None:
                d["sh"] = (nx,)
            yield op, "var", d
        for b, c in (("samples", None), ("all_samples", count)):
            d = dict(T=y.get("T"), Y=y.get("Y"), w=0, **(lo or {}))
            if nx is not None:
                d["sh"] = (nx, c)
            yield op, b, d

    for op, nx in (("predict_kernel", n_k), ("predict_kernel()", N.const(300)), ("prior predict_kernel", n_k)):
        yield from band(op, dict(T=1), dict(T=0, Y=2), nx)
    yield "sample_kernel", "0", dict(T=1, Y=0, sh=(n_k,), w=0)
    yield "sample_kernel", "1", dict(T=0, Y=2, sh=(num_ if p.scheme != "structured" else None, n_k), w=0)
    for op in ("predict_psd", "predict_psd(t_k)"):
        yield from band(op, dict(T=-1), dict(T=0, Y=0), None, has_var=False, lo=dict(loT=LN10, loY=LN10.scale(2)))
    for i in "01":
        yield "predict_fourier", i, dict(T=None, Y=0, sh=(us.n_z,), w=0)
    hu = dict(T=None, Y=1)
    for op in ("predict_filter", "predict_filter(min_phase=False)", "prior predict_filter"):
        yield from band(op, dict(T=1), hu, N.const(601))
    for op in ("sample", "sample normalised"):
        k = 0 if "norm" in op else 2
        yield op, "0", dict(T=0, Y=k, sh=(n, n), w=0)
        if k:
            yield op, "1", dict(T=0, Y=1, sh=(n,), w=0)
        else:
            yield op, "1", dict(T=0, sh=(n,), w=0)


def judge(R, prop, op, comp, v, exp, sink, site):
    kind = KINDS[prop]
    key = f"{sink}"
    if kind == "Y" and "filter" in op and "GPCM" in sink and sink.startswith("RGPCM") and exp.get("Y") and v.u not in (None, ANY) and dict(v.u).get("Y", 0) == 0:
        return R.bad("RGPCM predict_filter does not scale with the unit of the output", f"{site}: the predicted filter of the RGPCM has unit [{ustr(v.u)}], but it should be proportional to the unit of the output")
    where = f"{site}: result {comp + ' ' if comp else ''}of {sink}"
    if kind in ("T", "Y"):
        if exp.get(kind) is not None:
            R.unit(key, v, kind, exp[kind], where)
            lo = exp.get("lo" + kind, N.NF())
            R.offset(key + " (log)", v, kind, lo, where)
    elif kind == "w":
        R.shift(key, v, exp.get("w", 0), where)
    elif kind == "sh" and "sh" in exp:
        R.shape(key, v, exp["sh"], where)


def site(p, op):
    """Functions that produce the result of an operation."""
    m = op.split("(")[0].replace("prior ", "").replace(" before fitting", "").replace(" again", "").replace(" normalised", "").strip()
    out = where_of(p.I.prog, p.model, m)
    cls = "Structured" if p.scheme == "structured" else "MeanField"
    try:
        w = where_of(p.I.prog, cls, {"predict_kernel": "sample_kernel", "predict_psd": "sample_kernel", "predict_filter": "_sample_p_u", "predict_fourier": "predict_z"}.get(m, m))
        if ":" in w:
            out += " -> " + w
    except Exception:
        pass
    return out


def facts(R, prop, model, scheme, mode="explicit"):
    p = run_pipe(model, scheme, mode)
    R.absorb(p.I)
    outs = {}
    for op, comp, exp in expected(p):
        sink = f"{model} {scheme} {op}{'.' + comp if comp else ''}" + ("" if mode == "explicit" else f" [{mode}]")
        if op not in p.out:
            R.open(sink, f"{op} raises {p.raised.get(op)}")
            continue
        R.anchor("results")
        if op not in outs:
            outs[op] = dict(comps(p, p.out[op]))
        if comp not in outs[op]:
            R.open(sink, f"no component {comp}")
            continue
        judge(R, prop, op, comp, outs[op][comp], exp, sink, site(p, op))
    stored(R, prop, p, mode)
    objectives(R, prop, p)


def stored(R, prop, p, mode):
    """Initial values and assigned values of stored variables."""
    kind = KINDS[prop]
    us = p.contract.us
    for s, e in p.events():
        if e["kind"] == "ps_write" and kind in ("T", "Y", "sh"):
            path = tuple(e["path"])
            v = e.get("value")
            if v is None:
                continue
            v = L.asv(p.I, p.st, v)
            leaf = path[-1]
            side = us.U if "q_u" in path else U1 if "q_z" in path else None
            d = n_u if "q_u" in path else us.n_z
            if side is None or leaf not in ("lam", "prec", "samples"):
                continue
            want = {"lam": side, "prec": upow(side, 2), "samples": upow(side, -1)}[leaf]
            key = f"{p.model} {p.scheme} variable {'/'.join(map(str, path))} written in {e['where']}"
            where = f"{e['loc']}: value of {'/'.join(map(str, path))} ({p.model}, {p.scheme})"
            R.anchor("stored")
            if kind == "sh":
                R.shape(key, v, {"lam": (d, ONE), "prec": (d, d), "samples": (d, None)}[leaf], where)
            else:
                R.unit(key, v, kind, dict(want).get(kind, 0), where)


def objectives(R, prop, p):
    kind = KINDS[prop]
    for k, v in enumerate(getattr(p.I, "objvals", [])):
        key = f"{p.model} {p.scheme} objective"
        where = f"objective of the optimisation in fit ({p.model}, {p.scheme})"
        if not isinstance(v, V):
            continue
        if kind in ("T", "Y"):
            R.unit(key, v, kind, 0, where)
            if p.scheme != "structured":  # There it includes a log-density of a sample.
                n_ = n if k < 2 else p.N2
                R.offset(f"{key} (log, evaluation {k + 1})", v, kind, N.NF() if kind == "T" else n_, where)
        elif kind == "w":
            R.shift(key, v, 0, where)
        else:
            R.shape(key, v, (), where)


# -- integrals and covariances, and the construction of models
t1s, t2s = N.sym("n1", 0, "+"), N.sym("n2", 0, "+")


def integral_sinks(model, us):
    nu, nz = n_u, us.n_z
    A = {
        "t1": tin("t1", (t1s,), T=1, w=1), "t2": tin("t2", (t2s,), T=1, w=1),
        "s1": tin("s1", (t1s, 1), T=1, w=1), "s2": tin("s2", (1, t2s), T=1, w=1),
    }
    o = [
        ("compute_K_u", [], us.K_u, (nu, nu)), ("compute_K_z", [], us.K_z, (nz, nz)),
        ("compute_i_hx", ["t1", "t1"], us.i_hx, (t1s,)), ("compute_i_hx", ["s1", "s2"], us.i_hx, (t1s, t2s)),
        ("compute_i_hx", [], us.i_hx, ()),
        ("compute_I_ux", [], us.I_ux, (nu, nu)), ("compute_I_ux", ["t1", "t2"], us.I_ux, (t1s, t2s, nu, nu)),
        ("compute_I_ux", {"t1": "t1"}, us.I_ux, (t1s, nu, nu)), ("compute_I_ux", {"t2": "t2"}, us.I_ux, (t2s, nu, nu)),
        ("compute_I_hz", ["t1"], us.I_hz, (t1s, nz, nz)), ("compute_I_uz", ["t1"], us.I_uz, (t1s, nu, nz)),
    ]
    return A, o


def integrals(R, prop, model, mode, only=None):
    r = Run(contract=fresh_contract)
    us = Units(model)
    x = r.build(model, **model_args(model, mode))
    inst = r.inst(x)
    A, o = integral_sinks(model, us)
    kind = KINDS[prop]
    # In automatic mode the amplitude is the default.
    auto = mode != "explicit"
    # Attributes of the model that users read.
    if kind in ("T", "w"):
        T = {"extent": (1, 0), "t_u": (1, 0), "noise": (0, 0)}
        if model == "RGPCM":
            T.update(a=(1, 1), b=(1, 1), lam=(-1, 0), alpha=(-1, 0), gamma=(-1, 0), gamma_t=(Fr(-1, 2), 0), alpha_t=(Fr(-1, 2), 0))
        else:
            T.update(t_z=(1, 1), alpha=(-2, 0), gamma=(-2, 0), omega=(-2, 0), omega_t=(Fr(-1, 2), 0), alpha_t=(Fr(-1, 2), 0))
        for a, (e, w) in T.items():
            for o_, tag in ((x, "built"), (inst, "instantiated")):
                v = r.st.heap[o_.a].attrs.get(a)
                sink = f"{model}.{a} {tag} [{mode}]"
                where = f"{where_of(r.prog, model, '__init__')}: attribute {sink}"
                if v is None:
                    R.open(sink, "no such attribute")
                    continue
                v = L.asv(r.I, r.st, v)
                if kind == "T":
                    R.unit(sink, v, "T", e, where)
                else:
                    R.shift(sink, v, w, where)
    for f, args, u, sh in o:
        if isinstance(args, dict) and (auto or kind == "w"):
            continue  # The other time is zero, which is a lag.
        sink = f"{model} {f}({', '.join(f'{k}={a}' for k, a in args.items()) if isinstance(args, dict) else ', '.join(args)}) [{mode}]"
        where = f"{where_of(r.prog, model, f)}: result of {sink}"
        try:
            v = r.method(inst, f, **{k: A[a] for k, a in args.items()}) if isinstance(args, dict) else r.method(inst, f, *[A[a] for a in args])
        except AbsRaise as e:
            R.open(sink, f"raises {e.name}")
            continue
        R.anchor("integrals")
        v = L.asv(r.I, r.st, v)
        if kind == "Y":
            R.unit(sink, v, "Y", 0 if auto else dict(u).get("Y", 0), where)
        elif kind == "T":
            # With the default amplitude the excitation has unit power: Y = 1.
            R.unit(sink, v, "T", dict(u).get("T", 0), where)
        elif kind == "w":
            R.shift(sink, v, 0, where)
        elif mode == "explicit":
            R.shape(sink, v, sh, where)
    R.absorb(r.I)
    if kind == "T":
        bounds(R, r, model, mode)


def bounds(R, r, model, mode):
    """Bounds of learnable variables have the unit of the variable."""
    for e in r.I.events:
        if e["kind"] != "ps_reg":
            continue
        v = L.asv(r.I, r.st, e["init"]) if e["init"] is not None else None
        for b, x in e["bounds"].items():
            if b == "visible" or v is None:
                continue
            x = L.asv(r.I, r.st, x)
            key = f"{model} bound {b} of {'/'.join(map(str, e['path']))} [{mode}]"
            if x.is_const and isinstance(x.c, (int, float)) and abs(x.c) < 1e-3:
                R.ok(key, "tolerance")
                continue
            if v.u in (None, ANY) or x.u is None:
                R.open(key, "unit not known")
                continue
            R.unit(key, x, "T", dict(v.u).get("T", 0) if not isinstance(dict(v.u).get("T", 0), Bad) else 0, f"{e['loc']}: bound {b} of {'/'.join(map(str, e['path']))}")


def counts(R, prop, model, mode="auto"):
    """Numbers of inducing points do not depend on units."""
    r = Run(contract=fresh_contract)
    x = r.build(model, **model_args(model, mode))
    for a in ("n_u", "n_z", "m_max"):
        v = r.st.heap[x.a].attrs.get(a)
        if v is None:
            continue
        v = L.asv(r.I, r.st, v)
        sink = f"{model}.{a} [{mode}]"
        where = f"{where_of(r.prog, model, '__init__')}: attribute {a}"
        if prop == "C01":
            R.unit(sink, v, "T", 0, where)
        elif prop == "C04":
            R.shift(sink, v, 0, where)
    R.absorb(r.I)


def jobs(prop):
    def f(tier):
        out = []
        for m in MODELS:
            for s in SCHEMES:
                out.append(("c_pipe", "facts", (prop, m, s)))
            for mode in ("auto", "explicit") + (("extend", "extend explicit", "counts", "inducing") if prop in ("C01", "C04") else ()):
                out.append(("c_pipe", "integrals", (prop, m, mode)))
                if prop in ("C01", "C04") and mode != "explicit":
                    out.append(("c_pipe", "counts", (prop, m, mode)))
        return out
    return f
