"""Documented defaults (C24)."""
import ast, operator, os, re

from .pipe import *
from .report import where_of
from .client import client
from . import lib as L

WORDS = {"zero": 0, "one": 1, "two": 2, "ten": 10, "hundred": 100, "an empty dictionary": {}, "an empty list": [], "an empty tuple": ()}
OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Pow: operator.pow}
UNKNOWN = object()


class Param:
    """The value of another parameter."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Param) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


def value(prog, m, e, cls=None, depth=0):
    """Evaluate a constant expression."""
    if depth > 8:
        return UNKNOWN
    rec = lambda x: value(prog, m, x, cls, depth + 1)
    try:
        return ast.literal_eval(e)
    except (ValueError, SyntaxError, TypeError):
        pass
    if isinstance(e, ast.Name):
        if cls is not None and e.id in cls.consts:
            return rec(cls.consts[e.id])
        if len(m.assigns.get(e.id, ())) == 1:
            return rec(m.assigns[e.id][0])
        path = m.imports.get(e.id, "")
        mod, _, nm = path.rpartition(".")
        if mod in prog.modules and len(prog.modules[mod].assigns.get(nm, ())) == 1:
            return value(prog, prog.modules[mod], prog.modules[mod].assigns[nm][0], None, depth + 1)
    if isinstance(e, ast.BinOp) and type(e.op) in OPS:
        a, b = rec(e.left), rec(e.right)
        if UNKNOWN not in (a, b) if not isinstance(a, (dict, list)) and not isinstance(b, (dict, list)) else False:
            try:
                return OPS[type(e.op)](a, b)
            except Exception:
                return UNKNOWN
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        a = rec(e.operand)
        return -a if isinstance(a, (int, float)) else UNKNOWN
    if isinstance(e, ast.Call):
        f = ast.unparse(e.func).split(".")[-1]
        if f in ("zero", "zeros") and e.args:
            return 0
        if f in ("one", "ones") and e.args:
            return 1
        if f in ("dict", "list", "tuple") and not e.args and not e.keywords:
            return {"dict": {}, "list": [], "tuple": ()}[f]
        if f in ("int", "float", "bool") and len(e.args) == 1:
            a = rec(e.args[0])
            return {"int": int, "float": float, "bool": bool}[f](a) if isinstance(a, (int, float, bool)) else UNKNOWN
    return UNKNOWN


def is_none_test(t, p):
    """Does an expression test whether a parameter is None (True) or is not None (False)?"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        r = is_none_test(t.operand, p)
        return None if r is None else not r
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == p and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        return {ast.Is: True, ast.Eq: True, ast.IsNot: False, ast.NotEq: False}.get(type(t.ops[0]))
    return None


def signature(fn):
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    return pos + [x.arg for x in a.kwonlyargs], d


def effective(prog, fn, p, depth=0):
    """Value that a parameter has if it is not given."""
    names, d = signature(fn)
    if p not in d:
        return UNKNOWN
    v = value(prog, fn.module, d[p], fn.cls)
    if v is not None:
        return v

    def final(e):
        if isinstance(e, ast.Name) and e.id in names and e.id != p:
            return Param(e.id)
        return value(prog, fn.module, e, fn.cls)

    found = []
    for node in ast.walk(fn.node):
        if isinstance(node, ast.If):
            r = is_none_test(node.test, p)
            if r is None:
                continue
            for s in node.body if r else node.orelse:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in s.targets):
                    found.append(final(s.value))
        elif isinstance(node, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in node.targets):
            e = node.value
            if isinstance(e, ast.IfExp):
                r = is_none_test(e.test, p)
                if r is not None:
                    found.append(final(e.body if r else e.orelse))
            elif isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and isinstance(e.values[0], ast.Name) and e.values[0].id == p:
                found.append(final(e.values[-1]))
    if len(found) == 1:
        return found[0]
    if found or depth > 3:
        return UNKNOWN
    # The parameter may be handed on under the same name.
    for node in ast.walk(fn.node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            for k in node.keywords:
                gs = fn.module.fns.get(node.func.id, ())
                if k.arg == p and isinstance(k.value, ast.Name) and k.value.id == p and len(gs) == 1 and p in signature(gs[0])[1]:
                    found.append(effective(prog, gs[0], p, depth + 1))
    found = [x for x in found if x is not None]
    return (found[0] if all(x == found[0] for x in found) else UNKNOWN) if found else None


ENTRY = re.compile(r"^(\s*)(\*{0,2}\w+)\s*\(([^)]*)\)\s*:(.*)$")
STATED = re.compile(r"[Dd]efaults\s+to\s+(`[^`]+`|\"[^\"]*\"|'[^']*'|an empty \w+|[A-Za-z]+|\d[\d_.e+-]*\d|\d)\s*(?=[.,;]|$)")
INLINE = re.compile(r"`(\w+)`\s+defaults\s+to\s+(`[^`]+`|\"[^\"]*\")")


def documented(doc):
    """Parameters and the text of their documentation."""
    out, cur, indent = {}, None, None
    for line in (doc or "").splitlines():
        m = ENTRY.match(line)
        if m:
            cur, indent = m[2], len(m[1])
            out[cur] = (m[3], m[4].strip())
        elif cur and line.strip() and len(line) - len(line.lstrip()) > indent:
            out[cur] = (out[cur][0], out[cur][1] + " " + line.strip())
        else:
            cur = None
    return out


def literal(text):
    """The value that a phrase stands for."""
    if text[0] in "`\"'":
        x = text[1:-1].strip()
        if text[0] != "`":
            return x
        try:
            return ast.literal_eval(x)
        except (ValueError, SyntaxError):
            return ("name", x) if re.fullmatch(r"[\w.-]+", x) else UNKNOWN
    if text in WORDS:
        return WORDS[text]
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return UNKNOWN


def callables(prog, only=None):
    """Functions and classes with their overloads: (name, documentation, functions)."""
    for m in prog.modules.values():
        if only and not m.dotted.startswith(only):
            continue
        groups = {}
        for fns in m.fns.values():
            for f in fns:
                groups.setdefault((m.rel, f.name), []).append(f)
        for f in prog.fit_overloads:
            if f.module is m:
                groups.setdefault((m.rel, "fit"), []).append(f)
        for c in m.classes.values():
            for nm, fns in c.own.items():
                own = [f for f in fns if f.cls is c]
                if own:
                    groups[m.rel, f"{c.name}.{nm}"] = own
            init = [f for f in c.own.get("__init__", ()) if f.cls is c]
            if init:
                yield f"{m.rel}:{c.name}", [ast.get_docstring(c.node)], init
        for (rel, nm), fns in groups.items():
            yield f"{rel}:{nm}", [ast.get_docstring(f.node) for f in fns if isinstance(f.node, ast.FunctionDef)], fns


def show(v):
    return "unknown" if v is UNKNOWN else repr(v)


def literals(R, prop):
    """Documented literal defaults against the values that parameters have if they are not given."""
    prog = Program()
    for where, docs, fns in callables(prog):
        stated = {}
        for d in docs:
            for p, (ty, text) in documented(d).items():
                for x in STATED.findall(text):
                    stated.setdefault(p, set()).add(x)
            for p, x in INLINE.findall(re.sub(r"\s+", " ", d or "")):
                stated.setdefault(p, set()).add(x)
        for p, texts in stated.items():
            if any(" / " in x for x in texts):
                # Decided by `constructor`.
                continue
            if len(texts) != 1:
                # More than one entry was parsed as one.
                continue
            text = texts.pop()
            want = literal(text)
            for k, f in enumerate(fns):
                names, d = signature(f)
                if p not in d:
                    continue
                key = f"{where}({p})" + (f" overload {k + 1}" if len(fns) > 1 else "")
                if want is UNKNOWN:
                    R.open(key, f"documented default {text}")
                    continue
                R.anchor("documented defaults")
                v = effective(prog, f, p)
                if isinstance(want, tuple) and want[:1] == ("name",):
                    ok = v == want[1] or v == Param(want[1])
                    if not ok and (v is UNKNOWN or v is None):
                        ok = None
                elif v is UNKNOWN or v is None and want is not None:
                    ok = None
                else:
                    ok = v == want and (isinstance(v, bool) == isinstance(want, bool))
                R.check(key, ok, f"{f.where}: the default of `{p}` is {show(v)}, but it is documented to be {text}")
            if not any(p in signature(f)[0] for f in fns) and not any(f.node.args.kwarg or f.node.args.vararg for f in fns):
                R.bad(f"{where}({p})", f"{fns[0].where}: the documentation states the default {text} for `{p}`, which is not a parameter")


def is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def agree(R, what, entries):
    """Shared parameters of siblings have the same defaults."""
    names = {}
    for where, prog, f in entries:
        for p in signature(f)[1]:
            names.setdefault(p, []).append((where, f, effective(prog, f, p)))
    for p, xs in names.items():
        if len(xs) < 2:
            continue
        if all(is_none(signature(f)[1][p]) for _, f, _ in xs):
            # What is used instead is decided by `constructor` and `sentences`.
            continue
        known = [(w, f, v) for w, f, v in xs if v is not UNKNOWN]
        vals = []
        for w, f, v in known:
            v = False if v is None else v
            if not any(v == u and isinstance(v, bool) == isinstance(u, bool) for u in vals):
                vals.append(v)
        R.anchor("siblings")
        R.check(f"{what}: {p}", None if len(known) < len(xs) and len(vals) < 2 else len(vals) == 1, f"{' and '.join(sorted(set(f.where for _, f, _ in known)))}: {what} have different defaults for `{p}`: " + ", ".join(f"{show(v)} ({w})" for w, f, v in known))


def siblings(R, prop):
    prog = Program()
    models = [c for m in prog.modules.values() if m.dotted.startswith("gpcm") for c in m.classes.values() if c.name in MODELS + ("AbstractGPCM",)]
    # A subclass that documents its own default may have it.
    es = []
    for c in models:
        own = {p for p, _ in INLINE.findall(re.sub(r"\s+", " ", ast.get_docstring(c.node) or ""))}
        for f in c.own.get("__init__", ()):
            if f.cls is c and not own:
                es.append((c.name, prog, f))
    agree(R, "the constructors of the models", es)
    by = {}
    for m in prog.modules.values():
        if not m.dotted.startswith("gpcm"):
            continue
        for c in m.classes.values():
            if c.name in MODELS + ("AbstractGPCM",):
                continue
            for nm, fns in c.own.items():
                for f in fns:
                    if nm != "__init__" and (m.rel.endswith("approx.py")):
                        by.setdefault(f"`{nm}` of the approximations", []).append((c.name, prog, f))
                    elif len([g for g in fns if g.cls is f.cls]) > 1:
                        by.setdefault(f"the overloads of `{c.name}.{nm}`", []).append((c.name, prog, f))
        for nm, fns in m.fns.items():
            for f in fns:
                at = getattr(f, "attached_to", None)
                if at is not None:
                    by.setdefault(f"`{nm}` of the models", []).append((at.name, prog, f))
                elif len(fns) > 1:
                    by.setdefault(f"the overloads of `{nm}`", []).append((m.rel, prog, f))
    by["the overloads of `fit`"] = [(f.where, prog, f) for f in prog.fit_overloads]
    for what, es in by.items():
        if len(es) > 1:
            agree(R, what, es)
    # The methods of the model and of the approximation that it calls.
    top = next((c for c in models if c.name == "AbstractGPCM"), None)
    for nm, fns in (top.own if top else {}).items():
        es = [("AbstractGPCM", prog, f) for f in fns] + by.get(f"`{nm}` of the approximations", [])
        if nm != "__init__" and len(es) > 1:
            agree(R, f"`{nm}` of the models and of the approximations", es)


HEADER = re.compile(r"^\|\s*`(\w+)`\s*\|")
ROW = re.compile(r"^\|\s*`([^`]+)`\s*\(default\)\s*\|")


def readme(R, prop):
    """Tables of values of keyword arguments in the README."""
    prog = Program()
    path = os.path.join(prog.root, "README.md")
    try:
        lines = open(path, encoding="utf-8").read().splitlines()
    except OSError:
        return R.open("README", "not found")
    p = None
    for line in lines:
        if not line.startswith("|"):
            p = None
            continue
        h = HEADER.match(line)
        if p is None:
            p = h[1] if h else ""
            continue
        m = ROW.match(line)
        if not (p and m):
            continue
        try:
            want = ast.literal_eval(m[1])
        except (ValueError, SyntaxError):
            R.open(f"README: {p}", f"documented default {m[1]}")
            continue
        fns = list(prog.fit_overloads) if p != "scheme" else [f for mo in prog.modules.values() if mo.dotted.startswith("gpcm") for c in mo.classes.values() if c.name in MODELS + ("AbstractGPCM",) for f in c.own.get("__init__", ()) if f.cls is c]
        for f in fns:
            if p in signature(f)[1]:
                v = effective(prog, f, p)
                R.anchor("documented defaults")
                R.check(f"README: {p} of {f.where}:{f.node.args.args[3].arg if p != 'scheme' else ''}:{ast.unparse(f.node.args)[:60]}", None if v is UNKNOWN or v is None else v == want, f"{f.where}: the default of `{p}` is {show(v)}, but the README says {m[1]}")


def build(model, **kw):
    prog = Program()
    r = Run(prog, contract=fresh_contract)
    m = r.build(model, **kw)
    return prog, r, m


def attr(r, m, a):
    try:
        v = r.I.getattr(m, a, r.st, None)
    except AbsRaise:
        return None
    return L.asv(r.I, r.st, v) if v is not None else None


ATTRS = ("noise", "alpha", "alpha_t", "gamma", "gamma_t", "omega", "omega_t", "lam", "fix_noise", "fix_scale", "fix_window", "causal", "t_u", "t_z", "n_u", "n_z", "a", "b", "m_max", "ms", "extent")


def constructor(R, prop, model, mode):
    """The object that results if a documented parameter is not given is the one that results if
    the documented value is given."""
    prog = Program()
    c = find_cls(prog, model)
    docs = documented(ast.get_docstring(c.node))
    if model == "CGPCM":
        docs = {**documented(ast.get_docstring(find_cls(prog, "GPCM").node)), "causal": ("", " ".join(f"Defaults to {x}." for p, x in INLINE.findall(re.sub(r"\s+", " ", ast.get_docstring(c.node))) if p == "causal"))}
    args = model_args(model, mode)
    where = where_of(prog, model, "__init__")
    for p, (ty, text) in docs.items():
        xs = STATED.findall(text)
        if len(xs) != 1:
            continue
        want = literal(xs[0])
        kw = {k: v for k, v in args.items() if k != p}
        if isinstance(want, tuple) and want[:1] == ("name",):
            given = want[1]
        elif want is UNKNOWN and re.fullmatch(r"`1 / \w+`", xs[0]) and xs[0][5:-1] in kw:
            given = O.vdiv(num(1.0), kw[xs[0][5:-1]])
        elif isinstance(want, (bool, int, float)):
            given = num(want)
        else:
            continue
        key = f"{model} [{mode}]: {p}"
        try:
            _, r1, m1 = build(model, **kw)
            _, r2, m2 = build(model, **{**kw, p: given})
        except AbsRaise as e:
            R.open(key, f"raises {e.name}")
            continue
        R.anchor("constructors")
        if p == "scheme":
            continue
        worst = True
        bad = None
        for a in ATTRS:
            x, y = attr(r1, m1, a), attr(r2, m2, a)
            if x is None or y is None or not (x.is_const or x.nf is not None or y.is_const or y.nf is not None):
                continue
            if x.is_const and y.is_const:
                s = x.c == y.c
            elif x.nf is not None and y.nf is not None:
                s = nfeval.same(x.nf, y.nf)
            else:
                s = None
            if s is False:
                worst, bad = False, a
                break
            if s is None:
                worst = None
        x = attr(r1, m1, p)
        if x is not None and x.is_const and isinstance(given, V) and given.is_const:
            R.check(f"{key}: attribute", x.c == given.c, f"{where}: the attribute `{p}` is {x.c} if `{p}` is not given, but the default is documented to be {xs[0]}")
        R.check(key, worst, f"{where}: leaving out `{p}` is not the same as giving its documented default {xs[0]}: `{bad}` differs")
        R.absorb(r1.I)


CLIENT = '''
import lab.jax as B


def hx0(model):
    return model.compute_i_hx()


def hx(model):
    return model.compute_i_hx(B.zeros(model.dtype, 1), B.zeros(model.dtype, 1))


def ux0(model):
    return model.compute_I_ux()


def ux(model):
    return model.compute_I_ux(B.zeros(model.dtype, 1), B.zeros(model.dtype, 1))[0, 0]


def ux1(model):
    return model.compute_I_ux(B.zeros(model.dtype, 1))[0]


def spacing(x):
    return x[1] - x[0]


def ends(x):
    return x[0], x[-1]


def extremes(t):
    return min(t), max(t)


def length(x):
    return B.shape(x)[0]
'''


def zeros(R, prop, model):
    """Integrals at times that are not given are integrals at zero."""
    prog = Program()
    F = client(prog, CLIENT)
    for mode in ("explicit", "auto"):
        r = Run(prog, contract=fresh_contract)
        m = r.inst(r.build(model, **model_args(model, mode)))
        for a, bs, g in (("hx0", ("hx",), "compute_i_hx"), ("ux0", ("ux", "ux1"), "compute_I_ux")):
            doc = " ".join(t for f in find_fn(prog, g) for d in [documented(ast.get_docstring(f.node))] for p in ("t1", "t2") for t in [d.get(p, ("", ""))[1]])
            if not re.search(r"[Dd]efaults to zero", doc):
                R.open(f"{model} [{mode}]: {g}", "the documentation does not state zero")
                continue
            for b in bs:
                key = f"{model} [{mode}]: {g} without times ({b})"
                try:
                    x, y = (L.asv(r.I, r.st, r.call(F[f], m)) for f in (a, b))
                except AbsRaise as e:
                    R.open(key, f"raises {e.name}")
                    continue
                R.anchor("integrals")
                if x.nf is None or y.nf is None:
                    R.open(key, "no normal form")
                    continue
                R.check(key, nfeval.same(x.nf, y.nf), f"{next(f.where for f in find_fn(prog, g) if getattr(getattr(f, 'attached_to', None), 'name', None) in (model, 'GPCM'))}: the integral without times is not the integral at time zero")
        R.absorb(r.I)


SENTENCES = {
    "alpha_t": r"normalise the window to unity power",
    "gamma_t": r"normalise the transform to unity power",
    "omega": r"length scale half the spacing between the inducing points",
    "gamma": r"inverse of twice the spacing between the inducing points .* limited to `alpha / 1.5`",
    "t_u": r"equally spaced points across twice the filter length scale",
    "t_z": r"equally spaced points across the span of the data",
    "ms": r":math:`0,\\+ldots,2M` where :math:`M` is `m_max`",
}


def sentences(R, prop, model, mode, extra=()):
    """Defaults that are documented in words."""
    prog = Program()
    F = client(prog, CLIENT)
    doc = documented(ast.get_docstring(find_cls(prog, "GPCM" if model == "CGPCM" else model).node))
    where = where_of(prog, model, "__init__")
    for p, text in SENTENCES.items():
        args = {k: v for k, v in model_args(model, mode).items() if k != p}
        args.update({k: num(True) for k in extra})
        if p not in doc or p in ("t_u", "t_z", "ms") and mode == "explicit":
            continue
        tag = f"{model} [{mode}{''.join(', ' + k for k in extra)}]: {p}"
        if p == "gamma" and model != "RGPCM":
            continue
        if not re.search(text, doc[p][1]):
            R.open(tag, f"the documentation says: {doc[p][1][:100]}")
            continue
        r = Run(prog, contract=fresh_contract)
        try:
            m = r.build(model, **args)
        except AbsRaise as e:
            R.open(tag, f"raises {e.name}")
            continue
        A = lambda a: attr(r, m, a)
        NFa = lambda a: A(a).nf if A(a) is not None else None
        want = got = None
        R.anchor("defaults in words")
        try:
            if p in ("alpha_t", "gamma_t"):
                d = NFa("alpha" if p == "alpha_t" else "gamma")
                got = NFa(p)
                if model == "RGPCM":
                    want = d.scale(2).pow(N.Fraction(1, 2))
                else:
                    want = (d.scale(2) * L.PI.nf.pow(-1)).pow(N.Fraction(1, 4))
                    if L.asv(r.I, r.st, A("causal")).c:
                        want = want * N.const(2).pow(N.Fraction(1, 2))
            elif p == "omega":
                s = L.asv(r.I, r.st, r.call(F["spacing"], A("t_z"))).nf.scale(N.Fraction(1, 2))
                got, want = NFa("omega"), L.PI.nf.scale(N.Fraction(1, 4)) * s.pow(-2)
            elif p == "gamma":
                s = L.asv(r.I, r.st, r.call(F["spacing"], A("t_u"))).nf
                got, want = NFa("gamma"), N.fn("minimum", s.scale(2).pow(-1), NFa("alpha").scale(N.Fraction(2, 3)))
            elif p == "t_u":
                x = r.call(F["ends"], A("t_u"))
                got = L.concrete_items(r.I, r.st, x)[1].nf
                al = NFa("alpha")
                want = L.PI.nf * al.pow(-1) if model == "RGPCM" else (L.PI.nf.scale(N.Fraction(1, 4)) * al.pow(-1)).pow(N.Fraction(1, 2)).scale(2)
            elif p == "t_z":
                lo, hi = (x.nf for x in L.concrete_items(r.I, r.st, r.call(F["ends"], A("t_z"))))
                t = r.call(F["extremes"], args["t"])
                a, b = (x.nf for x in L.concrete_items(r.I, r.st, t))
                if "extend_t_z" in extra:
                    # The extension is rounded up to multiples of the spacing.
                    continue
                got, want = hi - lo, b - a
            elif p == "ms":
                got = r.call(F["length"], A("ms"))
                got, want = L.asv(r.I, r.st, got).nf, NFa("m_max").scale(2) + N.const(1)
        except (AttributeError, TypeError) as e:
            R.open(tag, f"unknown value ({type(e).__name__})")
            continue
        if got is None or want is None:
            R.open(tag, "no normal form")
            continue
        R.check(tag, nfeval.same(got, want, piecewise=True), f"{where}: if `{p}` is not given, it is {str(got)[:120]}, but it is documented to {text.split(' .*')[0]}")
        R.absorb(r.I)


def jobs(prop):
    def f(tier):
        out = [("c_defaults", g, (prop,)) for g in ("literals", "siblings", "readme")]
        for m in MODELS:
            for mode in ("auto", "explicit"):
                out.append(("c_defaults", "constructor", (prop, m, mode)))
                out.append(("c_defaults", "sentences", (prop, m, mode)))
            out.append(("c_defaults", "sentences", (prop, m, "auto", ("extend_t_z",))))
            out.append(("c_defaults", "zeros", (prop, m)))
        return out
    return f
