"""How operations use interfaces, stored variables and schemes (C11 to C16)."""
import ast
import re
from .pipe import *
from .report import where_of
from .c_pipe import run_pipe, comps
from .client import client, UTIL
from . import lib as L

FAULTS = ("bind", "no_attr", "unpack", "no_key", "bad_axis", "objective_arity", "no_ps")


def fault(e):
    """Key and message of an event that is an error in every run that reaches it."""
    k = e["kind"]
    if k == "bind":
        return f"call of {e['callee']} in {e['where']}", f"{e['loc']}: the call of {e['callee']} does not bind: {e['why']}"
    if k == "no_attr":
        return f"attribute {e['attr']} of {e['cls']} in {e['where']}", f"{e['loc']}: {e['cls']} has no attribute {e['attr']}"
    if k == "no_ps":
        return f"parameters of {e['cls']} in {e['where']}", f"{e['loc']}: {e['cls']} is not instantiated, so has no parameters"
    if k == "unpack":
        return f"unpacking in {e['where']}", f"{e['loc']}: unpacks {e['n']} values into {e['want']}"
    if k == "no_key":
        return f"key {e['key']} in {e['where']}", f"{e['loc']}: there is no key {e['key']!r}"
    if k == "objective_arity":
        return f"objective in {e['where']}", f"{e['loc']}: the objective gives {e['got']} values where the optimiser needs {e['want']}"
    return f"axis in {e['where']}", f"{e['loc']}: no such axis"


def judge_faults(R, events, ctx):
    seen = set()
    for e in events:
        if e["kind"] in FAULTS:
            k, m = fault(e)
            if k not in seen:
                seen.add(k)
                R.bad(k, f"{m} ({ctx})")
    return not seen


# ---------------------------------------------------------------- C12
def calls_ok(R, I, name, raised=None, a=0):
    ok = judge_faults(R, I.events[a:], name)
    if ok:
        # A fault is an error wherever it is; other exceptions are not judged here.
        (R.open if raised else R.ok)(name, f"raises {raised}" if raised else f"{I.calls} calls")
    for f in I.visited:
        R.ok(f"calls in {f}")
    R.anchor("interpreted calls", I.calls)
    R.absorb(I)


def bind_pipe(R, prop, model, scheme):
    p = run_pipe(model, scheme, nf=False)
    for s in p.mark:
        nm = f"{model} {scheme} {s}"
        if judge_faults(R, [e for _, e in p.events(s)], nm):
            (R.open if s in p.raised else R.ok)(nm, f"raises {p.raised.get(s)}" if s in p.raised else "")
    for f in p.I.visited:
        R.ok(f"calls in {f}")
    R.anchor("interpreted calls", p.I.calls)
    R.absorb(p.I)


OPTIONS = '''
import lab.jax as B
from gpcm import GPCM, CGPCM, RGPCM


def options(model, t, y, t_pred, t_k, num, path):
    model.elbo(t, y)
    state = B.create_random_state(model.dtype, seed=0)
    state, elbo = model.elbo(state, t, y)
    model.fit(t, y, iters=num)
    post = model.condition(t, y)
    state, elbo = post.elbo(state, t, y)
    instance = post()
    instance.predict(t_pred)
    instance.predict_kernel(t_k, num_samples=num)
    instance.sample_kernel(t_k, num_samples=num)
    instance.sample_kernel(num_samples=num)
    instance.predict_psd(t_k, num_samples=num)
    instance.predict_psd(num_samples=num)
    instance.predict_fourier(num_samples=num)
    instance.predict_filter(t_k, num_samples=num)
    instance.predict_filter(t_h=t_k, num_samples=num, min_phase=False)
    instance.kernel_approx(t, t_pred, instance.t_u)
    instance.k_h()
    mean, var = post.predict(t_pred)
    t_k, ks = post.sample_kernel()
    pred = post.predict_kernel()
    K, f = model.sample(t, normalise=True)
    model.save(path)
    model.load(path)
    return mean, var, ks, pred.x, pred.mean, pred.var, pred.err_68_lower, pred.err_95_upper, pred.err_99_lower, pred.samples, pred.all_samples


def structured_options(model, t, y, num):
    model.fit(t, y, iters=num, rate=1e-2, optimise_hypers=False, num_samples=num)
    model.fit(t, y, iters=num, optimise_hypers=num)
    state = B.create_random_state(model.dtype, seed=0)
    state, elbo = model.elbo(state, t, y, num_samples=num)
    elbo = model.elbo(t, y, num_samples=num)
    post = model.condition(t, y)
    return post.predict(t, num_samples=num)


def mean_field_options(model, t, y):
    state = B.create_random_state(model.dtype, seed=0)
    a, b, c = model.elbo(t, y, collapsed="z"), model.elbo(t, y, collapsed="u"), model.elbo(t, y, collapsed=None)
    state, d = model.elbo(state, t, y, collapsed="z")
    return a, b, c, d
'''


def bind_options(R, prop, model, scheme):
    """All documented options of the operations."""
    p = Pipe(Program(), model, scheme, nf=False)
    F = client(p.I.prog, OPTIONS)
    num_ = V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym("num", 0, "+"))
    jobs_ = [("options", (p.m, p.t, p.y, p.tp, p.tk, num_, num("path")))]
    if scheme == "structured":
        jobs_ += [("structured_options", (p.m, p.t, p.y, num_))]
    else:
        jobs_ += [("mean_field_options", (p.m, p.t, p.y))]
    for nm, args in jobs_:
        a = len(p.I.events)
        p.stage(nm, lambda: p.call(F[nm], *args))
        calls_ok(R, p.I, f"{model} {scheme} {nm}", p.raised.get(nm), a)


def util_args():
    m_, k_ = N.sym("m", 0, "+"), N.sym("k", 0, "+")
    return dict(
        h=tin("h", (n,)), x=tin("x", (k_,)), s=tin("samples", (m_, k_)), t=tin("t", (n,), T=1), k=tin("k", (n,)), y=tin("y", (n,)),
        c=tin("c", (n, 1)), c2=tin("c2", (n, 1)), c3=tin("c3", (n, 1)), p=tin("p", (n, n), flags="SM"), p2=tin("p2", (n, n), flags="SM"), a=tin("a", (n, n)), perm=tin("perm", (n,)),
    )


UTILS = [
    ("min_phase_", ["h"]), ("summarise", ["x", "s"]), ("summarise_db", ["x", "s"]), ("psd", ["t", "k"]), ("psd_db", ["t", "k"]),
    ("acf", ["y"]), ("acf_lags", ["y"]), ("acf_cov", ["y"]), ("acf_window", ["y"]), ("perm", ["perm"]), ("nearest", ["a"]), ("nearest_inverse", ["a"]),
    ("tuple_of", ["y"]), ("tuple_of_named", ["y"]), ("hess", ["c"]), ("map_estimate", ["c"]), ("laplace", ["c"]), ("laplace_eval", ["c"]),
    ("natural", ["c", "p", "c2", "p2", "c3"]), ("ess", ["y"]), ("ess_prior", ["y"]), ("polynomials", ["y", "k"]),
]


def run_util(nm, args, nf=False):
    prog = Program()
    r = Run(prog)
    r.I.nfon = nf
    F = client(prog, UTIL)
    A = util_args()
    r.raised = None
    r.value = None
    try:
        r.value = r.call(F[nm], *[A[a] for a in args])
    except AbsRaise as e:
        r.raised = e.name
    return r


def bind_util(R, prop, names):
    for nm, args in UTILS:
        if nm in names:
            r = run_util(nm, args)
            calls_ok(R, r.I, f"utility {nm}", r.raised)


def bind_integrals(R, prop, model, mode):
    from .c_pipe import integral_sinks
    r = Run(contract=fresh_contract)
    r.I.nfon = False
    inst = r.inst(r.build(model, **model_args(model, mode)))
    A, o = integral_sinks(model, Units(model))
    for f, args, u, sh in o:
        a = len(r.I.events)
        raised = None
        try:
            r.method(inst, f, *([] if isinstance(args, dict) else [A[x] for x in args]), **({k: A[x] for k, x in args.items()} if isinstance(args, dict) else {}))
        except AbsRaise as e:
            raised = e.name
        calls_ok(R, r.I, f"{model} {f}({', '.join(args)}) [{mode}]", raised, a)


def script_fn(m):
    """The body of a script as a function."""
    from .front import FnInfo
    body = [s for s in m.tree.body if not isinstance(s, (ast.Import, ast.ImportFrom, ast.ClassDef))]
    f = ast.parse("def script():\n    pass").body[0]
    f.body, f.name = body, "<script>"
    ast.fix_missing_locations(f)
    return Fn([FnInfo(f, m)])


def scripts(prog):
    return sorted(k for k in prog.modules if k.startswith("experiments.") and not k.endswith(".experiment"))


def bind_script(R, prop, dotted):
    prog = Program()
    r = Run(prog, contract=fresh_contract, hooks=hooks_for("GPCM"))
    r.I.nfon = False
    raised = None
    try:
        r.call(script_fn(prog.modules[dotted]))
    except AbsRaise as e:
        raised = e.name
    calls_ok(R, r.I, f"script {dotted}", raised)


def bind_run(R, prop, model, scheme, fix, load):
    """The common driver of the experiments."""
    prog = Program()
    con = Contract(model)
    r = Run(prog, contract=con, hooks=hooks_for(model))
    I, st = r.I, r.st
    I.nfon = False
    run_ = Fn(prog.modules["experiments.experiment"].fns["run"])
    name = {"GPCM": "gpcm", "CGPCM": "cgpcm", "RGPCM": "gprv"}[model]
    t, y = tin("t", (n,), T=1, w=1), tin("y", (n,), Y=1)
    tp = tin("t_plot", (n_p,), T=1, w=1)
    args = EObj("nt", items=dict(
        model=Tup([num(name)]), scheme=num(scheme), load=num(load), fix_hypers=num(fix), seed=num(0), path=Tup([]),
        iters=num(5000),
    ), name="Namespace")
    n_ = lambda k: V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym(k, 0, "+"))
    raised = None
    try:
        r.call(
            run_, args, TOP(), tin("noise", (), flags="+"), tin("window", (), T=1, flags="+"), tin("scale", (), T=1, flags="+"), t, y,
            n_u=n_("n_u"), n_z=n_("n_z"), t_plot=tp, truth=Tup([t, y]),
        )
    except AbsRaise as e:
        raised = e.name
    if not fix:
        return calls_ok(R, I, f"experiments run with {model} {scheme}{', loaded' if load else ''}", raised)
    # The option is judged by itself.
    ok = not any(e["kind"] in FAULTS for e in I.events)
    kind = "structured" if scheme == "structured" else "mean-field"
    if ok:
        (R.open if raised else R.ok)(f"experiments run with {model} {scheme} and fixed hyperparameters", f"raises {raised}" if raised else "")
    else:
        msgs = sorted({fault(e)[1] for e in I.events if e["kind"] in FAULTS})
        R.bad(f"experiments run with a {kind} scheme and fixed hyperparameters", msgs[0])
    R.absorb(I)


# ---------------------------------------------------------------- C11
# Scheme: coordinate ascent before, optimiser, collapsed factor, coordinate ascent after.
SEQUENCE = {
    "structured": (False, "minimise_adam", None, False),
    "mean-field": (True, "minimise_l_bfgs_b", "q_z", True),
    "mean-field-ca": (True, None, None, False),
    "mean-field-gradient": (False, "minimise_l_bfgs_b", None, False),
    "mean-field-collapsed-gradient": (False, "minimise_l_bfgs_b", "q_z", False),
    "mean-field-ca-gradient": (True, "minimise_l_bfgs_b", None, True),
    "mean-field-ca-collapsed-gradient": (True, "minimise_l_bfgs_b", "q_z", True),
}


def written(e):
    """Path of the variable that an event writes."""
    if e["kind"] in ("ps_write", "ps_delete"):
        return tuple(e["path"])
    if e["kind"] in ("vs_assign", "vs_delete"):
        nm = e.get("name")
        if isinstance(nm, V) and nm.is_const and isinstance(nm.c, str):
            return tuple(int(x) if x.isdigit() else x for x in re.findall(r"[^.\[\]]+", nm.c))
        return ("?",)
    return None


def scheme_steps(R, prop, model, scheme, spelling, stages=("fit", "fit again")):
    prog = Program()
    p = Pipe(prog, model, spelling, nf=False)
    tag = f"{model} {spelling}"
    where = where_of(prog, "AbstractGPCM", "__prior__")

    def stage(s, f):
        p.stage(s, f)
        ok = judge_faults(R, [e for _, e in p.events(s)], f"{tag} {s}")
        if s in p.raised:
            n_ = p.raised[s]
            if n_ == "ValueError":
                R.bad(f"scheme {spelling}", f"{where}: {s} with the documented scheme {spelling!r} raises a ValueError ({model})")
            else:
                R.open(f"{tag} {s}", f"raises {n_}")
            return False
        R.anchor("scheme operations")
        if ok:
            R.ok(f"{tag} {s} without an error")
        return True

    if p.m is None:
        if p.raised.get("build") == "ValueError":
            R.bad(f"scheme {spelling}", f"{where}: building a model with the documented scheme {spelling!r} raises a ValueError ({model})")
        else:
            R.open(f"{tag} build", f"raises {p.raised.get('build')}")
        R.absorb(p.I)
        return
    seq = [("instantiate", lambda: p.inst(p.m)), ("fit", lambda: p.method(p.m, "fit", p.t, p.y))]
    if "fit again" in stages:
        seq += [("condition", lambda: setattr(p, "post", p.method(p.m, "condition", p.t, p.y))), ("fit again", lambda: p.method(p.post, "fit", p.t2, p.y2))]
    want = SEQUENCE[scheme]
    for s, f in seq:
        if not stage(s, f):
            break
        if not s.startswith("fit"):
            continue
        evs = [e for _, e in p.events(s)]
        mins = [k for k, e in enumerate(evs) if e["kind"] == "minimise"]
        fitw = where_of(prog, "AbstractGPCM", "fit")
        key = f"{tag} {s}"
        fns = [evs[k]["fn"] for k in mins]
        R.check(f"{key} optimiser", (fns == [want[1]]) if want[1] else not fns, f"gpcm/approx.py fit: scheme {scheme!r} should {'run ' + want[1] + ' once' if want[1] else 'not optimise by gradients'}, but runs {', '.join(map(str, fns)) or 'no optimiser'} ({model}, {s})", str(fns))
        first, last = (mins[0], mins[-1]) if mins else (len(evs), -1)
        paths = [(k, written(e), e) for k, e in enumerate(evs) if written(e)]
        if any(w == ("?",) for _, w, _ in paths):
            R.open(f"{key} steps", "writes a variable whose name is not known")
            continue
        leaf = lambda w: w[-1] in ("lam", "prec")
        ca = lambda a, b: {w[0] for k, w, e in paths if a <= k < b and leaf(w)}
        if want[1]:
            before, after = ca(0, first), ca(last, len(evs))
        else:
            before, after = ca(0, len(evs)), set()
        both = {"q_u", "q_z"}
        if scheme == "structured":
            sm = {w[0] for k, w, e in paths if k > last and w[-1] == "samples" and e["kind"] != "ps_delete"}
            R.check(f"{key} samples", sm == both, f"gpcm/approx.py fit: the structured scheme should store Gibbs samples of both factors after optimising ({model}, {s}), but stores {sorted(sm) or 'none'}")
            R.check(f"{key} no coordinate ascent", not (before | after), f"gpcm/approx.py fit: the structured scheme assigns natural parameters ({model}, {s})")
        else:
            R.check(f"{key} coordinate ascent before", (before == both) if want[0] else not before, f"gpcm/approx.py fit: scheme {scheme!r} should {'' if want[0] else 'not '}run coordinate ascent {'before the gradient steps' if want[1] else ''} ({model}, {s}), but assigns {sorted(before) or 'nothing'} there")
            if want[1]:
                exp = both if want[3] else {want[2]} if want[2] else set()
                R.check(f"{key} after the gradient steps", after == exp, f"gpcm/approx.py fit: scheme {scheme!r} should assign {sorted(exp) or 'nothing'} after the gradient steps ({'coordinate ascent' if want[3] else 'the collapsed factor' if want[2] else 'none'}), but assigns {sorted(after) or 'nothing'} ({model}, {s})")
        if want[1] and scheme != "structured":
            tags = set()
            for e in evs:
                if e["kind"] == "objective_value":
                    tags |= set(e["tags"])
            i = 0 if s == "fit" else 1
            dep = {q for q in both if any(x.startswith(f"v:{q}/{i}/") for x in tags)}
            exp = both - {want[2]}
            R.check(f"{key} objective", dep == exp if tags else None, f"gpcm/approx.py fit: the objective of scheme {scheme!r} should depend on {' and '.join(sorted(exp))} as free variables, but depends on {' and '.join(sorted(dep)) or 'neither'} ({model}, {s})", str(sorted(dep)))
    R.absorb(p.I)


def spellings(s):
    return [s, s.upper(), s.capitalize()]


UNKNOWN = ("unknown", "", "structured ", "mean_field", "mean-field-bfgs", "mean-field-ca-collapsed", "ca", "gibbs", "meanfield", "mean-field-", "structured-ca")


def rejected(R, prop):
    """Anything else raises a value error."""
    prog = Program()
    for sch in UNKNOWN:
        r = Run(prog, contract=Contract("GPCM"), hooks=hooks_for("GPCM"))
        r.I.nfon = False
        kw = model_args("GPCM", "explicit")
        kw["scheme"] = num(sch)
        res = None
        try:
            m = r.build("GPCM", **kw)
            r.inst(m)
        except AbsRaise as e:
            res = e.name
        R.anchor("rejections")
        R.check(f"unknown scheme {sch!r}", res == "ValueError", f"{where_of(prog, 'AbstractGPCM', '__prior__')}: the unknown scheme {sch!r} {'raises ' + res if res else 'is accepted'} instead of raising a ValueError")
        R.absorb(r.I)
    # Unknown arguments of the approximations.
    src = '''
from gpcm.approx import MeanField


def unknown_fit(instance, model, t, y):
    from probmods import fit
    return fit(model, t, y, MeanField(instance, fit="newton"))


def unknown_collapse(model, t, y):
    return model.elbo(t, y, collapsed="x")
'''
    p = Pipe(Program(), "GPCM", "mean-field", nf=False)
    F = client(p.I.prog, src)
    inst = p.inst(p.m)
    for nm, args, what in (("unknown_fit", (inst, p.m, p.t, p.y), "fit method"), ("unknown_collapse", (p.m, p.t, p.y), "collapsed factor")):
        p.stage(nm, lambda: p.call(F[nm], *args))
        res = p.raised.get(nm)
        R.anchor("rejections")
        R.check(f"unknown {what}", res == "ValueError", f"gpcm/approx.py: an unknown {what} {'raises ' + res if res else 'is accepted'} instead of raising a ValueError")
    R.absorb(p.I)


# ---------------------------------------------------------------- C13, C14
PREDICT = ("predict", "predict_kernel", "predict_kernel()", "sample_kernel", "predict_psd", "predict_psd(t_k)", "predict_fourier", "predict_filter", "predict_filter(min_phase=False)")


def excluded(names, path):
    """Whether the names given to an optimiser exclude a variable. `None`: not known."""
    if names is None:
        return False
    if names == "?" or "?" in names:
        return None
    s = "/".join(map(str, path))
    out = False
    for x in names:
        if not isinstance(x, str):
            return None
        neg = x.startswith("-")
        y = x[1:] if neg else x
        if y.startswith("$all:"):
            m = s == y[5:] or s.startswith(y[5:] + "/")
        else:
            nm = "".join(f"[{z}]" if isinstance(z, int) else f".{z}" for z in path)[1:]
            try:
                m = re.match("(" + y + ")$", nm) is not None
            except re.error:
                return None
        if not neg:
            return None
        out = out or m
    return out


def learned(p, s):
    """Posterior variables that a fit writes or optimises."""
    out = set()
    for _, e in p.events(s):
        w = written(e)
        if w and e["kind"] in ("ps_write", "vs_assign") and len(w) > 1:
            out.add(w)
        if e["kind"] == "minimise":
            names = e["names"] if e["has_names"] else None
            tags = {x for _, g in p.events(s) if g["kind"] == "objective_value" for x in g["tags"]}
            for x in tags:
                if x.startswith("v:q_"):
                    path = tuple(int(y) if y.isdigit() else y for y in x[2:].split("/"))
                    if excluded(names, path) is False:
                        out.add(path)
    return out


def posteriors(R, prop, model, scheme):
    p = run_pipe(model, scheme, nf=False)
    R.absorb(p.I)
    for s in p.raised:
        R.open(f"{model} {scheme} {s}", f"raises {p.raised[s]}")
    both = {"q_u", "q_z"}
    for i, fit_, ops in ((0, "fit", PREDICT), (1, "fit again", ("predict again",))):
        if fit_ not in p.out:
            continue
        known_ = learned(p, fit_)
        cur = {w for w in known_ if w[1] == i}
        for op in ops:
            unset = {tuple(e["path"]): e for _, e in p.events(op) if e["kind"] == "ps_unset" and e["path"][0] in both}
            for w, e in unset.items():
                R.bad(f"{model} {scheme} {op} reads {'/'.join(map(str, w))}", f"{e['loc']}: {model} {scheme} {op} reads the posterior variable {'/'.join(map(str, w))}, which no fit has stored (conditioned on posterior {i})")
            if op not in p.out:
                continue
            for c, v in comps(p, p.out[op]):
                if c == "x" or (op == "sample_kernel" and c == "0"):
                    continue
                key = f"{model} {scheme} {op}{'.' + c if c else ''}"
                site = where_of(p.I.prog, model, op.split("(")[0].split()[0])
                dep = {tuple(int(y) if y.isdigit() else y for y in t[2:].split("/")) for t in v.tags if t.startswith("v:q_")}
                R.anchor("predictions")
                if v.u is None and not v.tags:
                    R.open(key, "not known")
                    continue
                need = {"predict_fourier": {"q_z"}, "predict": both if scheme != "structured" else set(), "predict again": both if scheme != "structured" else set()}.get(op, {"q_u"})
                have = {d[0] for d in dep & cur}
                stale = sorted("/".join(map(str, d)) for d in dep - cur)
                if stale:
                    R.bad(key, f"{site}: {key} depends on {', '.join(stale)}, which the fit of this scheme does not learn (it learns {', '.join(sorted('/'.join(map(str, d)) for d in cur))})")
                elif not have or not need <= have:
                    R.bad(key, f"{site}: {key} does not depend on the posterior {' and '.join(sorted((need - have) or both))} that fitting stored")
                else:
                    R.ok(key, ", ".join(sorted("/".join(map(str, d)) for d in dep)))
    for op in ("prior predict_kernel", "prior predict_filter", "sample"):
        if op in p.out:
            for c, v in comps(p, p.out[op]):
                dep = sorted(t[2:] for t in v.tags if t.startswith("v:q_"))
                R.check(f"{model} {scheme} {op}{'.' + c if c else ''}", not dep, f"{where_of(p.I.prog, model, op.replace('prior ', ''))}: a prediction of a model that is not conditioned depends on {', '.join(dep)}")


def writes(R, prop, model, scheme):
    p = run_pipe(model, scheme, nf=False)
    R.absorb(p.I)
    tag = f"{model} {scheme}"
    allowed = {"elbo before fitting": 0, "fit": 0, "elbo": 0, "fit again": 1, "elbo again": 1}
    for s in p.mark:
        if s in p.raised:
            R.open(f"{tag} {s}", f"raises {p.raised[s]}")
            continue
        R.anchor("operations")
        i = allowed.get(s)
        bad = {}
        for _, e in p.events(s):
            w = written(e)
            if e["kind"] == "vs_assign" and w == ("?",):
                bad[f"{tag} {s} assigns unknown variables"] = None
                continue
            if w:
                nm = "/".join(map(str, w))
                if i is None:
                    bad[f"{tag} {s} writes {nm}"] = f"{e['loc']}: {s} writes the stored variable {nm} ({tag})"
                elif w[0] not in ("q_u", "q_z"):
                    bad[f"{tag} {s} writes {nm}"] = f"{e['loc']}: {s} writes the stored variable {nm}, which is no posterior ({tag})"
                elif w[1] != i:
                    bad[f"{tag} {s} writes {nm}"] = f"{e['loc']}: {s} writes {nm}, but the current posterior is number {i} ({tag})"
            if e["kind"] == "minimise":
                R.anchor("optimisations")
                names = e["names"] if e["has_names"] else None
                for j in range(2):
                    for q in ("q_u", "q_z"):
                        if i is not None and j < i:
                            for leaf in ("lam", "prec", "samples"):
                                x = excluded(names, (q, j, leaf))
                                k = f"{tag} {s} optimises {q}/{j}/{leaf}"
                                if x is None:
                                    R.open(k, "names not known")
                                else:
                                    R.check(k, x, f"{e['loc']}: {s} optimises {q}/{j}/{leaf}, a posterior that is already in use as prior ({tag})")
                if i is None:
                    bad[f"{tag} {s} optimises"] = f"{e['loc']}: {s} optimises variables ({tag})"
        for k, m in bad.items():
            R.open(k, "name not known") if m is None else R.bad(k, m)
        if not bad:
            R.ok(f"{tag} {s}")


def jobs(prop):
    def f(tier):
        if prop == "C11":
            out = [("c_use", "rejected", (prop,))]
            for s in SEQUENCE:
                for m in MODELS:
                    out.append(("c_use", "scheme_steps", (prop, m, s, s)))
                for x in spellings(s)[1:]:
                    out.append(("c_use", "scheme_steps", (prop, "GPCM", s, x, ("fit",))))
            return out
        if prop == "C12":
            out = []
            for m in MODELS:
                for s in SCHEMES:
                    out += [("c_use", "bind_pipe", (prop, m, s)), ("c_use", "bind_options", (prop, m, s)), ("c_use", "bind_run", (prop, m, s, False, False))]
                for s in ("structured", "mean-field"):
                    out += [("c_use", "bind_run", (prop, m, s, False, True)), ("c_use", "bind_run", (prop, m, s, True, False))]
                for mode in ("auto", "explicit"):
                    out.append(("c_use", "bind_integrals", (prop, m, mode)))
            out += [("c_use", "bind_util", (prop, (nm,))) for nm, _ in UTILS]
            out += [("c_use", "bind_script", (prop, d)) for d in scripts(Program())]
            return out
        if prop == "C13":
            return [("c_use", "posteriors", (prop, m, s)) for m in MODELS for s in SCHEMES]
        if prop == "C14":
            return [("c_use", "writes", (prop, m, s)) for m in MODELS for s in SCHEMES]
    return f
