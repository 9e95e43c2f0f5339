"""Flow properties: random states, order of iteration, aliasing, binding of calls, stored
variables, purity (C07 to C16, C18 to C24, C26)."""
import ast
from .pipe import *
from .front import FnInfo
from .report import where_of
from .c_pipe import run_pipe, comps, find_fn, t1s, t2s
from . import lib as L

DRAWS = ("predict_kernel", "sample_kernel", "predict_psd", "predict_filter", "sample", "predict", "predict_fourier")


def short(e):
    return e["loc"]


def fn_of(e):
    return e["where"]


# ---------------------------------------------------------------- C07
def states(R, prop, model, scheme):
    p = run_pipe(model, scheme, nf=False)
    R.absorb(p.I)
    tag = f"{model} {scheme}"
    for s in p.mark:
        evs = [e for _, e in p.events(s)]
        draws = sum(e["kind"] == "draw" for e in evs)
        R.anchor("draws", draws)
        bad = {}
        for e in evs:
            if e["kind"] == "tok_reuse":
                bad[f"{fn_of(e)} draws twice from one random state"] = f"{e['loc']}: draws from a random state that was already used to draw ({tag}, {s})"
            if e["kind"] == "global_set" and e["stale"]:
                bad[f"{fn_of(e)} stores a used global random state"] = f"{e['loc']}: makes a random state the global one that was already used to draw ({tag}, {s})"
        for k, m in bad.items():
            R.bad(k, m)
        if s in p.raised:
            R.open(f"{tag} {s}", f"raises {p.raised[s]}")
            continue
        g0, g1, used = p.gtoks[s]
        k = f"{tag} global state after {s}"
        if used:
            R.bad(k, f"{tag}: after {s}, the global random state is one that was already used to draw")
        elif g1 is None:
            R.open(k, "not known")
        else:
            a, b = [p.I.tokroots.get(g, frozenset([g])) for g in (g0, g1)]
            R.check(k, b == a, f"{tag}: after {s}, the global random state does not continue the stream of before ({', '.join(sorted(b - a) or ['?'])})")
        if not bad:
            R.ok(f"{tag} {s}", f"{draws} draws")


def explicit_states(R, prop, model, scheme):
    """Routines that take a random state."""
    p = Pipe(Program(), model, scheme, nf=False)
    inst = p.inst(p.m)
    appr = p.attr(inst, "approximation")
    q_u = p.attr(appr, "q_u")
    u, z = tin("u", (n_u, 1)), tin("z", (p.contract.us.n_z, 1))
    calls = [("elbo", appr, "elbo", (p.t, p.y)), ("model elbo", p.m, "elbo", (p.t, p.y)), ("NaturalNormal.sample", q_u, "sample", ()), ("NaturalNormal.sample of many", q_u, "sample", (num(7),))]
    if scheme == "structured":
        calls += [("elbo_gibbs", appr, "elbo_gibbs", (p.t, p.y, u, z)), ("elbo_collapsed_z", appr, "elbo_collapsed_z", (p.t, p.y))]
    for nm, o, f, args in calls:
        key = f"{model} {scheme} {nm} with a given random state"
        # The first call may initialise variables, which draws from the global state.
        for k in (key + " (first)", key):
            given = p.I.newtok("given")
            r = p.stage(k, lambda: p.method(o, f, V(tok=given, lo=None), *args))
        if key in p.raised:
            R.open(key, f"raises {p.raised[key]}")
            continue
        R.anchor("explicit states")
        evs = [e for _, e in p.events(key)]
        for e in evs:
            if e["kind"] == "tok_reuse":
                R.bad(f"{fn_of(e)} draws twice from one random state", f"{e['loc']}: draws from a random state that was already used to draw ({key})")
        items = L.concrete_items(p.I, p.st, r)
        s = items[0] if items else None
        where = [fn_of(e) for e in evs if e["kind"] == "draw"]
        glob = sorted({t[5:] for x in items or () if isinstance(x, V) for t in x.tags if t.startswith("grnd:")})
        if not isinstance(s, V) or s.tok is None:
            R.open(key, "no random state is returned first")
            continue
        roots = p.I.tokroots.get(s.tok, frozenset([s.tok]))
        if s.tok in p.st.consumed:
            R.bad(key, f"{key}: the returned random state was already used to draw (in {', '.join(sorted(set(where)))})")
        elif roots != frozenset([given]):
            R.bad(key, f"{key}: the returned random state does not continue the given one, but {', '.join(sorted(roots))}")
        elif glob:
            R.bad(key, f"{glob[0]}: draws from the global random state although a random state is given ({key})")
        else:
            R.ok(key, f"{len(where)} draws")
    R.absorb(p.I)


# ---------------------------------------------------------------- C08
def fresh_names():
    from . import libep, ops
    libep._eps[0] = 0
    ops._unk[0] = 0


def trees(st, v, depth=0):
    """Operation trees of the parts of a result."""
    from .interp import Tup, Seq, Ref, EObj
    if depth > 5:
        return ()
    if isinstance(v, V):
        return ("v", L.idof(v))
    if isinstance(v, Tup):
        return ("t",) + tuple(trees(st, i, depth + 1) for i in v.items)
    if isinstance(v, Seq):
        return ("s", trees(st, v.elem, depth + 1))
    if isinstance(v, EObj):
        f = v.f["items"] if v.kind == "nt" else v.f
        return (v.kind,) + tuple((k, trees(st, x, depth + 1)) for k, x in sorted(f.items()) if isinstance(x, (V, Tup, Seq, EObj)))
    if isinstance(v, Ref):
        ob = st.heap.get(v.a)
        it = ob.attrs.get("items") if ob else None
        if ob is not None and ob.kind == "list" and it is not None:
            return ("l",) + tuple(trees(st, i, depth + 1) for i in it)
        return ("r",)
    return ("?",)


def order_integrals(R, prop, model):
    """Integrals and covariances do not depend on the order in which sets are iterated."""
    res = []
    for order in ("asc", "desc"):
        fresh_names()
        r = Run(contract=fresh_contract, cfg=dict(setorder=order, process=order, optree=True))
        inst = r.inst(r.build(model, **model_args(model, "explicit")))
        A = {
            "t1": tin("t1", (t1s,), T=1, w=1), "t2": tin("t2", (t2s,), T=1, w=1),
            "s1": tin("s1", (t1s, 1), T=1, w=1), "s2": tin("s2", (1, t2s), T=1, w=1),
        }
        out = {}
        for f, args in (("compute_K_u", []), ("compute_K_z", []), ("compute_i_hx", ["s1", "s2"]), ("compute_I_ux", []), ("compute_I_ux", ["t1", "t2"]), ("compute_I_hz", ["t1"]), ("compute_I_uz", ["t1"])):
            try:
                out[f, len(args)] = trees(r.st, r.method(inst, f, *[A[a] for a in args]))
            except AbsRaise as e:
                out[f, len(args)] = None
        R.absorb(r.I)
        res.append(out)
    for (f, k), a in res[0].items():
        b = res[1][f, k]
        key = f"{model} {f}({k} times)"
        R.anchor("orders")
        if a is None or b is None:
            R.open(key, "raises")
        else:
            R.check(key, a == b, f"{where_of(r.prog, model, f)}: the result depends on the order in which a set is iterated, which differs between processes", "same operations in both orders")


def order_pipe(R, prop, model, scheme):
    res, seeds = [], []
    for order in ("asc", "desc"):
        fresh_names()
        p = run_pipe(model, scheme, nf=False, cfg=dict(setorder=order, process=order, optree=True))
        R.absorb(p.I)
        seeds.append([(e["loc"], e["id"]) for _, e in p.events() if e["kind"] == "seed"])
        res.append((p, {s: trees(p.st, v) for s, v in p.out.items()}, [(e["path"], trees(p.st, e.get("value"))) for _, e in p.events() if e["kind"] == "ps_write"], [repr(sorted(map(str, e["names"] or ()))) for _, e in p.events() if e["kind"] == "minimise"]))
    (p, a, wa, ma), (_, b, wb, mb) = res
    for s in a:
        R.anchor("orders")
        R.check(f"{model} {scheme} {s}", a[s] == b.get(s), f"{model} {scheme}: the result of {s} depends on the order in which a set is iterated, which differs between processes", "same operations in both orders")
    R.check(f"{model} {scheme} seeds", seeds[0] == seeds[1], f"{model} {scheme}: {', '.join(sorted({a[0] for a, b in zip(*seeds) if a != b}))}: the seed depends on hashes, which differ between processes", f"{len(seeds[0])} seeds")
    R.check(f"{model} {scheme} stored variables", wa == wb, f"{model} {scheme}: stored values depend on the order in which a set is iterated", f"{len(wa)} writes")
    R.check(f"{model} {scheme} optimised names", ma == mb, f"{model} {scheme}: the names given to the optimiser depend on the order in which a set is iterated", str(len(ma)))


# ---------------------------------------------------------------- C36
def repeated(R, prop, model, scheme, before, mode="explicit"):
    """Results do not depend on what was done before in the same process, on the clock, or on
    random numbers that the global seed does not determine."""
    from . import ctx
    prog = Program()
    cfg = dict(optree=True, persist=True)

    def look(p):
        ws = [(e["path"], trees(p.st, e.get("value"))) for _, e in p.events() if e["kind"] == "ps_write"]
        ms = [repr(sorted(map(str, e["names"] or ()))) for _, e in p.events() if e["kind"] == "minimise"]
        return {s: trees(p.st, v) for s, v in p.out.items()}, ws, ms

    fresh_names()
    a = run_pipe(model, scheme, mode, nf=False, cfg=cfg, prog=prog)
    first = look(a)
    R.absorb(a.I)
    fresh_names()
    ctx.PREFIX[0] = "before "
    try:
        q = run_pipe(before[0], before[1], mode, nf=False, cfg=cfg, prog=prog)
    finally:
        ctx.PREFIX[0] = ""
    q.I.events.clear()
    fresh_names()
    b = run_pipe(model, scheme, mode, nf=False, cfg=cfg, after=q)
    again = look(b)
    R.absorb(b.I)
    tag = f"{model} {scheme}, after {before[0]} {before[1]}"
    for s in first[0]:
        R.anchor("repetitions")
        R.check(f"{tag}: {s}", first[0][s] == again[0].get(s), f"{model} {scheme}: the result of {s} is computed differently if another model ({before[0]}, {before[1]}) was used before in the same process", "same operations")
    R.check(f"{tag}: stored variables", first[1] == again[1], f"{model} {scheme}: what is stored is computed differently if another model ({before[0]}, {before[1]}) was used before in the same process", f"{len(first[1])} writes")
    R.check(f"{tag}: optimised names", first[2] == again[2], f"{model} {scheme}: other variables are optimised if another model ({before[0]}, {before[1]}) was used before in the same process", f"{len(first[2])} optimisations")
    # Sources of chance.
    names = {"clock": "the clock", "entropy": "random numbers that the global seed does not determine"}
    for s, v in a.out.items():
        R.anchor("results")
        for c, x in comps(a, v) if v is not None else ():
            if isinstance(x, V):
                for t in ("clock", "entropy"):
                    R.check(f"{model} {scheme} {s} {c}: {t}", t not in x.tags, f"{model} {scheme}: the result of {s} depends on {names[t]}")
    for s, e in a.events():
        k = f"{model} {scheme} {s}: {e['loc'][:100]}"
        if e["kind"] == "ps_write" or e["kind"] == "vs_assign":
            x = e.get("value")
            x = L.asv(a.I, a.st, x) if x is not None else None
            for t in ("clock", "entropy"):
                R.check(f"{k}: {t}", x is None or t not in x.tags, f"{e['loc']}: stores a value that depends on {names[t]} ({model}, {scheme})")
        if e["kind"] == "unseeded":
            R.bad(k, f"{e['loc']}: draws from a source of random numbers that the global seed does not determine ({model}, {scheme}, {s})")
        if e["kind"] == "seed":
            R.check(k, not e.get("chance"), f"{e['loc']}: the seed depends on the clock or on chance ({model}, {scheme}, {s})")
        if e["kind"] == "chance":
            R.bad(k, f"{e['loc']}: how long is iterated depends on the clock or on chance ({model}, {scheme}, {s})")


def repeated_integrals(R, prop, model, before):
    """Integrals and covariances do not depend on what was computed before in the same process."""
    from . import ctx
    prog = Program()
    A = {}

    def go(r, m):
        inst = r.inst(r.build(m, **model_args(m, "explicit")))
        A = {
            "t1": tin("t1", (t1s,), T=1, w=1), "t2": tin("t2", (t2s,), T=1, w=1),
            "s1": tin("s1", (t1s, 1), T=1, w=1), "s2": tin("s2", (1, t2s), T=1, w=1), "u": tin("u", (n_u,)),
        }
        out = {}
        for f, args in (("compute_K_u", []), ("compute_K_z", []), ("compute_i_hx", ["s1", "s2"]), ("compute_i_hx", []), ("compute_I_ux", []), ("compute_I_ux", ["t1", "t2"]), ("compute_I_hz", ["t1"]), ("compute_I_uz", ["t1"]), ("kernel_approx", ["t1", "t2", "u"])):
            try:
                out[f, len(args)] = trees(r.st, r.method(inst, f, *[A[a] for a in args]))
            except AbsRaise:
                out[f, len(args)] = None
        return out

    cfg = dict(optree=True, persist=True)
    fresh_names()
    r = Run(prog, contract=fresh_contract, cfg=cfg)
    first = go(r, model)
    R.absorb(r.I)
    fresh_names()
    r = Run(prog, contract=fresh_contract, cfg=cfg)
    ctx.PREFIX[0] = "before "
    try:
        go(r, before)
    finally:
        ctx.PREFIX[0] = ""
    fresh_names()
    r.I.nlab, r.I.stats, r.st.gtok, r.st.consumed = 0, {}, "g0", frozenset()
    again = go(r, model)
    R.absorb(r.I)
    for (f, k), a in first.items():
        key = f"{model} {f}({k} times), after {before}"
        R.anchor("repetitions")
        if a is None or again[f, k] is None:
            R.open(key, "raises")
        else:
            R.check(key, a == again[f, k], f"{where_of(r.prog, model, f)}: the result is computed differently if another model ({before}) was used before in the same process", "same operations")


def polys(r):
    """Polynomials over the interpreter, with symbolic coefficients."""
    var, const = Fn(find_fn(r.prog, "var")), Fn(find_fn(r.prog, "const"))
    c = {k: O.atom(k, (), "") for k in ("c1", "c2", "c3", "c4", "c5", "c6")}
    return var, const, c


def order_polys(R, prop):
    """Evaluation of general polynomials in several variables."""
    res = []
    for order in ("asc", "desc"):
        fresh_names()
        r = Run(cfg=dict(setorder=order, process=order, optree=True))
        var, const, c = polys(r)
        I, st = r.I, r.st
        op = lambda o, a, b: L.binop(I, st, o, a, b, None)
        x, y, z = [r.call(var, num(k)) for k in "xyz"]
        xy, yz = op("Mult", x, y), op("Mult", y, z)
        p = None
        for k, m in zip(c, (xy, yz, op("Mult", xy, z), op("Pow", x, num(2)), op("Mult", op("Pow", y, num(2)), z), z)):
            t = op("Mult", c[k], m)
            p = t if p is None else op("Add", p, t)
        out = {}
        X = {k: O.atom("v" + k, ()) for k in "xyz"}
        cls = ClsV(find_cls(r.prog, "ExpPoly"))
        neg = L.unop(I, st, "USub", op("Add", op("Add", op("Pow", x, num(2)), op("Pow", y, num(2))), op("Add", op("Mult", xy, c["c1"]), op("Mult", x, op("Mult", z, c["c2"])))), None)
        ep = I.call(cls, [neg], {}, None, st)
        for nm, f in (
            ("polynomial evaluation", lambda: r.method(p, "eval", **X)),
            ("power", lambda: r.method(op("Pow", p, num(2)), "eval", **X)),
            ("substitution", lambda: r.method(r.method(p, "substitute", num("y"), op("Add", x, z)), "eval", **X)),
            ("integral", lambda: r.method(ep, "integrate", num("x"), num("y"), z=X["z"])),
            ("half-line integral", lambda: r.method(ep, "integrate_half", num("x"), num("y"), z=X["z"])),
            ("box integral", lambda: r.method(ep, "integrate_box", Tup([num("x"), z, num(float("inf"))]), Tup([num("y"), num(-float("inf")), op("Add", z, x) if False else z]), z=X["z"])),
        ):
            try:
                out[nm] = trees(st, f())
            except AbsRaise as e:
                out[nm] = None
        R.absorb(I)
        res.append(out)
    for nm, a in res[0].items():
        R.anchor("orders")
        if a is None or res[1][nm] is None:
            R.open(nm, "raises")
        else:
            R.check(nm, a == res[1][nm], f"gpcm/exppoly.py: {nm} depends on the order in which a set is iterated, which differs between processes")


def jobs(prop):
    def f(tier):
        if prop == "C08":
            return [("c_flow", "order_polys", (prop,))] + [("c_flow", "order_integrals", (prop, m)) for m in MODELS] + [("c_flow", "order_pipe", (prop, m, s)) for m in MODELS for s in SCHEMES]
        if prop == "C36":
            out = [("c_flow", "repeated_integrals", (prop, m, b)) for m in MODELS for b in MODELS]
            for k, m in enumerate(MODELS):
                for j, s in enumerate(SCHEMES):
                    out.append(("c_flow", "repeated", (prop, m, s, (MODELS[(k + j) % 3], SCHEMES[(j + (1 if (k + j) % 3 == k else 0)) % len(SCHEMES)] if j % 2 else s), "auto" if j % 3 == 1 else "explicit")))
            return out
        if prop == "C07":
            return [("c_flow", g, (prop, m, s)) for m in MODELS for s in SCHEMES for g in ("states", "explicit_states")]
    return f
