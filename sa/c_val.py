"""Values that must stay as they are: data of the caller (C09), polynomials (C10), stored
variables in files (C15), and hyperparameters (C16)."""
from .pipe import *
from .report import where_of
from .c_pipe import run_pipe, comps
from .client import client
from .c_use import OPTIONS, UTILS, run_util
from . import lib as L


# ---------------------------------------------------------------- C09
def judge_mutations(R, events, key):
    bad = {}
    for e in events:
        if e["kind"] == "mutate":
            bad[f"{e['where']} modifies {', '.join(e['roots'])}"] = f"{e['loc']}: {e['how']} modifies {' and '.join(e['roots'])}, which the caller supplied ({key})"
    for k, m in bad.items():
        R.bad(k, m)
    return not bad


def kept_pipe(R, prop, model, scheme):
    p = run_pipe(model, scheme, nf=False)
    for s in p.mark:
        nm = f"{model} {scheme} {s}"
        R.anchor("operations")
        if judge_mutations(R, [e for _, e in p.events(s)], nm):
            (R.open if s in p.raised else R.ok)(nm, f"raises {p.raised.get(s)}" if s in p.raised else "")
    for f in p.I.visited:
        R.ok(f"effects of {f}")
    R.absorb(p.I)


def kept_options(R, prop, model, scheme, mode):
    p = Pipe(Program(), model, scheme, mode, nf=False)
    F = client(p.I.prog, OPTIONS)
    num_ = V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym("num", 0, "+"))
    calls = [("options", (p.m, p.t, p.y, p.tp, p.tk, num_, num("path")))]
    if scheme == "structured":
        calls.append(("structured_options", (p.m, p.t, p.y, num_)))
    else:
        calls.append(("mean_field_options", (p.m, p.t, p.y)))
    for nm, args in [("build", None)] + calls:
        if args is not None:
            p.stage(nm, lambda: p.call(F[nm], *args))
        R.anchor("operations")
        key = f"{model} {scheme} {nm} [{mode}]"
        if judge_mutations(R, [e for _, e in p.events(nm)], key):
            (R.open if nm in p.raised else R.ok)(key, f"raises {p.raised.get(nm)}" if nm in p.raised else "")
    R.absorb(p.I)


def kept_integrals(R, prop, model, mode):
    from .c_pipe import integral_sinks
    r = Run(contract=fresh_contract)
    r.I.nfon = False
    inst = r.inst(r.build(model, **model_args(model, mode)))
    A, o = integral_sinks(model, Units(model))
    for f, args, u, sh in [("build", [], None, None)] + o:
        a = len(r.I.events) if f != "build" else 0
        raised = None
        try:
            if f != "build":
                r.method(inst, f, *([] if isinstance(args, dict) else [A[x] for x in args]), **({k: A[x] for k, x in args.items()} if isinstance(args, dict) else {}))
        except AbsRaise as e:
            raised = e.name
        R.anchor("operations")
        key = f"{model} {f}({', '.join(args)}) [{mode}]"
        if judge_mutations(R, r.I.events[a:], key):
            (R.open if raised else R.ok)(key, f"raises {raised}" if raised else "")
    R.absorb(r.I)


CONTAINERS = '''
from gpcm.util import invert_perm, autocorr, collect, summarise_samples, estimate_psd
from gpcm.exppoly import Term, Poly, ExpPoly, Factor, var, const


def lists(perm, xs, ts, ks, samples):
    return invert_perm(perm), autocorr(xs), autocorr(xs, lags=3, cov=True, window=True), estimate_psd(ts, ks), summarise_samples(ts, samples, db=True)


def dictionary(d):
    return collect("Name", **d), collect(**d)


def polynomial(factors, terms, d, names):
    p = Poly(*terms)
    q = p * p + p - 1
    e = ExpPoly(p - var("x") ** 2 - var("y") ** 2)
    return q, q.eval(**d), Term(1, *factors), e.eval(**d), e.integrate(*names, **d)
'''


def kept_containers(R, prop):
    """Lists and dictionaries of the caller."""
    r = Run()
    r.I.nfon = False
    F = client(r.prog, CONTAINERS)
    st, I = r.st, r.I
    lst = lambda name, items: I.new(st, "list", None, items=tuple(items), **{"$roots": frozenset([name])})
    dct = lambda name, items: I.new(st, "dict", None, items=dict(items), **{"$roots": frozenset([name])})
    x = lambda k: O.atom(k, ())
    fac = lambda nm: I.call(ClsV(find_cls(r.prog, "Factor")), [num(nm), num(2)], {}, None, st)
    var_ = lambda nm: r.call(Fn(find_fn(r.prog, "var")), num(nm))
    cases = [
        ("lists", lambda: r.call(F["lists"], lst("the permutation", map(num, (2, 0, 1))), lst("the time series", [x(f"x{i}") for i in range(9)]), tin("t", (n,), T=1), tin("k", (n,)), tin("samples", (N.sym("m", 0, "+"), n)))),
        ("dictionary", lambda: r.call(F["dictionary"], dct("the dictionary", dict(a=x("a"), b=x("b"))))),
        ("polynomial", lambda: r.call(F["polynomial"], lst("the list of factors", [fac("x"), fac("y")]), lst("the list of terms", []), dct("the dictionary", dict(x=x("a"), y=x("b"))), lst("the list of names", [num("x"), num("y")]))),
    ]
    for nm, f in cases:
        a = len(I.events)
        raised = None
        try:
            f()
        except AbsRaise as e:
            raised = e.name
        R.anchor("operations")
        if judge_mutations(R, I.events[a:], nm):
            (R.open if raised else R.ok)(f"containers: {nm}", f"raises {raised}" if raised else "")
    R.absorb(I)


def kept_util(R, prop, names):
    for nm, args in UTILS:
        if nm in names:
            r = run_util(nm, args)
            R.anchor("operations")
            if judge_mutations(R, r.I.events, f"utility {nm}"):
                (R.open if r.raised else R.ok)(f"utility {nm}", f"raises {r.raised}" if r.raised else "")
            R.absorb(r.I)


# ---------------------------------------------------------------- C10
SETUP = """
from gpcm.exppoly import Factor, Term, Poly, ExpPoly, var, const


def operands(c, d):
    x, y, z = var("x"), var("y"), var("z")
    fx, fx2, fy = Factor("x"), Factor("x", 2), Factor("y")
    tx, ty, txy = Term(c, fx2), Term(fy), Term(2, fx2, fy)
    p = c * x**2 + d * y + 3
    q = x * y - 2 * z * x + 1
    e = ExpPoly(c, -(x**2) - y**2 + d * x * y)
    g = ExpPoly(-(x**2) - y**2 - z**2)
    return x, y, z, fx, fx2, fy, tx, ty, txy, p, q, e, g


def observe(x, y, z, fx, fx2, fy, tx, ty, txy, p, q, e, g, vx, vy, vz):
    polys = [v.eval(x=vx, y=vy, z=vz) for v in (x, y, z, p, q, e, g)]
    terms = [v.eval(x=vx, y=vy, z=vz) for v in (tx, ty, txy)]
    factors = [v.eval(x=vx, y=vy, z=vz) for v in (fx, fx2, fy)]
    powers = [[v.highest_power(k) for k in ("x", "y", "z")] for v in (x, y, z, p, q, tx, ty, txy)]
    of = [[v.is_function_of(k) for k in ("x", "y", "z")] for v in (x, y, z, p, q, tx, ty, txy)]
    return polys, terms, factors, powers, of, [v.is_constant() for v in (x, p, q, tx, ty)], len(p.terms), len(q.terms), len(txy.factors)
"""
# Operation, and the class of its result.
OPS = [
    ("p + q", "Poly"), ("p + 2", "Poly"), ("2 + p", "Poly"), ("p + c", "Poly"), ("c + p", "Poly"), ("p + 0", "Poly"), ("0 + p", "Poly"), ("sum([p, q, x])", "Poly"),
    ("p - q", "Poly"), ("p - p", "Poly"), ("p - 2", "Poly"), ("2 - p", "Poly"), ("c - p", "Poly"), ("0 - p", "Poly"), ("p - 0", "Poly"),
    ("p * q", "Poly"), ("p * 2", "Poly"), ("2 * p", "Poly"), ("p * c", "Poly"), ("c * p", "Poly"), ("p * 1", "Poly"), ("1 * p", "Poly"), ("p * 0", "Poly"), ("0 * p", "Poly"),
    ("-p", "Poly"), ("-(p - p)", "Poly"), ("p**0", "Poly"), ("p**1", "Poly"), ("p**2", "Poly"), ("q**3", "Poly"), ("(p - p)**2", "Poly"), ("(p - p) * q", "Poly"), ("(p - p) + q", "Poly"), ("(p - p)**0", "Poly"),
    ("p.substitute('x', q)", "Poly"), ("p.substitute('x', p)", "Poly"), ("p.substitute('w', q)", "Poly"), ("p.substitute('x', p - p)", "Poly"), ("q.substitute('x', 2 * z)", "Poly"), ("(p - p).substitute('x', q)", "Poly"), ("const(3).substitute('x', q)", "Poly"), ("p.substitute('x', const(0))", "Poly"),
    ("p.collect_for(fx2)", "Poly"), ("p.collect_for(fx)", "Poly"), ("q.collect_for(fx)", "Poly"), ("p.reject('x')", "Poly"), ("p.reject('w')", "Poly"), ("q.reject('x')", "Poly"), ("const(c)", "Poly"), ("const(0)", "Poly"), ("var('w')", "Poly"), ("var('w', 2)", "Poly"), ("Poly()", "Poly"), ("Poly(tx, ty, tx)", "Poly"),
    ("Poly().eval()", "num"), ("p.eval(x=c, y=d)", "num"), ("(p - p).eval(x=c, y=d)", "num"), ("(p - p).is_constant()", "bool"), ("(p - p).highest_power('x')", "int"), ("p.highest_power('x')", "int"), ("p.is_function_of('x')", "bool"), ("(p - p).is_function_of('x')", "bool"),
    ("str(p)", "str"), ("repr(p)", "str"), ("str(p - p)", "str"), ("str(tx)", "str"), ("repr(fx)", "str"), ("str(e)", "str"), ("repr(e)", "str"),
    ("tx + tx", "Term"), ("0 + tx", "Term"), ("tx + 0", "Term"), ("tx * ty", "Term"), ("ty * txy", "Term"), ("txy * txy", "Term"), ("1 * tx", "Term"), ("tx * 1", "Term"), ("-tx", "Term"), ("tx.collect_for(fx2)", "Term"), ("txy.collect_for(fy)", "Term"), ("Term(3)", "Term"), ("Term(0, fx)", "Term"), ("Term(fx, fx, fy)", "Term"),
    ("tx.substitute('x', q)", "Poly"), ("txy.substitute('y', p)", "Poly"), ("ty.substitute('x', q)", "Poly"), ("Term(2).substitute('x', q)", "Poly"), ("tx.eval(x=c, y=d)", "num"), ("tx.is_constant()", "bool"), ("Term(2).is_constant()", "bool"), ("hash(ty)", "int"), ("hash(txy)", "int"), ("tx.highest_power('x')", "int"),
    ("fx * fx", "Factor"), ("fx * fx2", "Factor"), ("fx * 1", "Factor"), ("1 * fx", "Factor"), ("fx.eval(x=c)", "num"), ("fx2.eval(x=c)", "num"), ("hash(fx)", "int"),
    ("e * g", "ExpPoly"), ("e * 2", "ExpPoly"), ("2 * e", "ExpPoly"), ("c * e", "ExpPoly"), ("e * c", "ExpPoly"), ("-e", "ExpPoly"), ("e.substitute('x', p)", "ExpPoly"), ("e.substitute('x', x - y)", "ExpPoly"), ("e.translate_var('x', y)", "ExpPoly"), ("e.translate_var('x', const(c))", "ExpPoly"), ("e * ExpPoly(x**2 + y**2)", "ExpPoly"), ("ExpPoly(p - p)", "ExpPoly"), ("ExpPoly(c, p)", "ExpPoly"),
    ("e.eval(x=c, y=d)", "num"), ("ExpPoly(p - p).eval(x=c)", "num"), ("e.integrate('x', 'y')", "num"), ("e.integrate('x', y=d)", "num"), ("g.integrate('y', 'x', 'z')", "num"), ("e.integrate_half('x', y=d)", "num"), ("g.integrate_half('x', 'y', z=d)", "num"),
    ("g.integrate_box(('x', 0, 1), ('y', -float('inf'), c), z=d)", "num"), ("g.integrate_box(('x', -float('inf'), z), ('y', z, float('inf')), z=d)", "num"), ("g.integrate_box(('x', 0, 1), y=c, z=d)", "num"), ("g.integrate_box(('x', -float('inf'), float('inf')), y=c, z=d)", "num"),
]
OPS += [(a.replace("p - p", "x - x"), b) for a, b in OPS if "p - p" in a]
# Values that are equal.
EQUAL = [
    ("x + y", "y + x"), ("x * y", "y * x"), ("x * y + z", "z + y * x"), ("(x + y) + z", "x + (y + z)"), ("x * (y + z)", "x * y + x * z"), ("(x + y)**2", "x**2 + 2 * x * y + y**2"), ("(x - y) * (x + y)", "x**2 - y**2"),
    ("x - x", "Poly()"), ("x - x", "const(0)"), ("x - x", "q - q"), ("p + 0", "p"), ("0 + p", "p"), ("p * 1", "p"), ("x * 0", "Poly()"), ("0 * x", "const(0)"), ("p**0", "const(1)"), ("p**1", "p"), ("q**2", "q * q"), ("-(-q)", "q"), ("2 - x", "-(x - 2)"), ("x + x", "2 * x"), ("x * x", "x**2"), ("x * x", "var('x', 2)"), ("x * x * x", "x**3"),
    ("x + y - x", "y"), ("x * y * z - z * y * x", "Poly()"), ("q + 1 - q", "const(1)"), ("q - 1 + 1", "q"), ("x.substitute('x', y)", "y"), ("q.substitute('x', x)", "q"), ("q.substitute('w', x)", "q"), ("(x + y).substitute('y', -x)", "Poly()"), ("(x * y).substitute('x', y)", "y**2"), ("(x**2).substitute('x', y + z)", "(y + z)**2"), ("(x**2 * y).substitute('x', y)", "y**3"), ("(x * y + 1).substitute('x', const(0))", "const(1)"), ("(x**2 + y).substitute('x', const(2))", "y + 4"),
    ("(x**2 * y + x + 3).collect_for(fx)", "const(1)"), ("(x**2 * y + 4 * x**2 + x).collect_for(fx2)", "y + 4"), ("(x * y + y + 3).reject('x')", "y + 3"), ("q.reject('x')", "const(1)"), ("(x - x).reject('x')", "Poly()"),
    ("Poly(Term(fx), Term(fy))", "Poly(Term(fy), Term(fx))"), ("Term(fx, fy)", "Term(fy, fx)"), ("Term(2, fx, fy)", "Term(2, fy, fx)"), ("Term(1, fx)", "Term(fx)"), ("Term(fx, fx)", "Term(fx2)"), ("Term(fx) * Term(fx)", "Term(fx2)"), ("Term(2, fx) * Term(3, fy)", "Term(6, fy, fx)"), ("txy.collect_for(fy)", "Term(2, fx2)"), ("Term(0, fx)", "Term(0)"), ("Term(2, fx) + Term(3, fx)", "Term(5, fx)"), ("-Term(2, fx)", "Term(-2, fx)"),
    ("Factor('x')", "Factor('x', 1)"), ("Factor('x', 1)", "fx"), ("fx * fx", "fx2"), ("fx * 1", "fx"),
    ("ExpPoly(p)", "ExpPoly(1, p)"), ("ExpPoly(2, x + y)", "ExpPoly(2, y + x)"), ("ExpPoly(x) * ExpPoly(y)", "ExpPoly(x + y)"), ("ExpPoly(2, x) * ExpPoly(3, y)", "ExpPoly(6, y + x)"), ("2 * ExpPoly(x)", "ExpPoly(2, x)"), ("ExpPoly(x) * ExpPoly(-x)", "ExpPoly(Poly())"), ("-ExpPoly(2, x)", "ExpPoly(-2, x)"), ("ExpPoly(3, x).substitute('x', y)", "ExpPoly(3, y)"), ("ExpPoly(2, x * y).translate_var('x', z)", "ExpPoly(2, x * y + z * y)"),
]
# Values that differ.
DIFFER = [
    ("x", "y"), ("x", "x**2"), ("x", "2 * x"), ("x + y", "x"), ("x + y", "x + z"), ("x", "Poly()"), ("const(1)", "Poly()"), ("const(1)", "const(2)"), ("x * y", "x * z"), ("x**2 * y", "x * y**2"), ("x + 1", "x - 1"), ("2 * x + y", "x + 2 * y"), ("p**0", "Poly()"), ("q", "-q"),
    ("fx", "fy"), ("fx", "fx2"), ("Term(fx)", "Term(fy)"), ("Term(2, fx)", "Term(3, fx)"), ("Term(fx)", "Term(fx2)"), ("Term(fx, fy)", "Term(fx)"), ("ExpPoly(2, x)", "ExpPoly(3, x)"), ("ExpPoly(x)", "ExpPoly(y)"), ("ExpPoly(x)", "ExpPoly(2 * x)"), ("ExpPoly(x + y)", "ExpPoly(x)"),
]
HASHABLE = ("Term", "Factor")


def setup_polys(order):
    from .c_flow import fresh_names
    fresh_names()
    r = Run(cfg=dict(setorder=order, optree=True))
    names = "x, y, z, fx, fx2, fy, tx, ty, txy, p, q, e, g"
    src = SETUP
    for k, (ex, _) in enumerate(OPS):
        src += f"\n\ndef op{k}({names}, c, d):\n    return {ex}\n"
    for k, (a, b) in enumerate(EQUAL + DIFFER):
        src += f"\n\ndef eq{k}({names}, c, d):\n    a, b = {a}, {b}\n    return a, b, a == b, b == a, a != b\n"
        src += f"\n\ndef hash{k}(a, b):\n    return hash(a), hash(b)\n"
    F = client(r.prog, src)
    c, d = O.atom("c", (), "+"), O.atom("d", ())
    ops_ = r.call(F["operands"], c, d)
    return r, F, list(L.concrete_items(r.I, r.st, ops_)), c, d


def cls_of(r, v):
    if isinstance(v, Ref):
        ob = r.st.heap[v.a]
        return ob.cls.name if ob.cls is not None else ob.kind
    if isinstance(v, V):
        if v.is_const:
            x = v.c
            return "bool" if isinstance(x, bool) else "int" if isinstance(x, int) else "num" if isinstance(x, float) else type(x).__name__
        return v.ty if v.ty in ("bool", "str") else "num"
    return None


def poly_ops(R, prop, order):
    from .c_flow import trees
    r, F, vs, c, d = setup_polys(order)
    I, st = r.I, r.st
    X = [O.atom(k, ()) for k in ("vx", "vy", "vz")]
    watch = lambda: trees(st, r.call(F["observe"], *vs, *X))
    ref = watch()
    for k, (ex, want) in enumerate(OPS):
        key = f"{ex}"
        try:
            v = r.call(F[f"op{k}"], *vs, c, d)
        except AbsRaise as e:
            R.anchor("operations")
            if e.name == "AssertionError" or not e.name:
                R.open(key, f"raises {e.name}")
            else:
                R.bad(f"closure: {ex}", f"gpcm/exppoly.py: {ex} raises {e.name}, but should be a {want}")
            continue
        got = cls_of(r, v)
        R.anchor("operations")
        ok = got == want or want == "int" and got in ("num", "bool") or want == "num" and got in ("int", "float") or want == "bool" and got == "num"
        if want in ("Poly", "Term", "Factor", "ExpPoly"):
            R.check(f"closure: {ex}", None if got is None else ok, f"gpcm/exppoly.py: {ex} is a {got}, but should be a {want}", got)
        else:
            R.check(f"closure: {ex}", True if ok else None, f"is a {got}", got)
        try:
            now = watch()
        except AbsRaise as e:
            R.bad(f"operands of {ex}", f"gpcm/exppoly.py: after {ex}, its operands cannot be evaluated any more ({e.name})")
            now = None
        if now is None or now != ref:
            if now is not None:
                R.bad(f"operands of {ex}", f"gpcm/exppoly.py: {ex} changes one of its operands")
            R.absorb(I)
            r, F, vs, c, d = setup_polys(order)
            I, st = r.I, r.st
            X = [O.atom(k, ()) for k in ("vx", "vy", "vz")]
            ref = watch()
        else:
            R.ok(f"operands of {ex}", "same value before and after")
    R.absorb(I)


def poly_equal(R, prop, order):
    from .c_flow import trees
    r, F, vs, c, d = setup_polys(order)
    for k, (a, b) in enumerate(EQUAL + DIFFER):
        want = k < len(EQUAL)
        key = f"{a} {'==' if want else '!='} {b}"
        R.anchor("equalities")
        try:
            x, y, e1, e2, n1 = L.concrete_items(r.I, r.st, r.call(F[f"eq{k}"], *vs, c, d))
        except AbsRaise as e:
            R.bad(key, f"gpcm/exppoly.py: comparing {a} and {b} raises {e.name}")
            continue
        for nm, e, w in (("", e1, want), (" reversed", e2, want), (" negated", n1, not want)):
            t = r.I.truth(e, r.st)
            R.check(key + nm, None if t is None else t == w, f"gpcm/exppoly.py: {a} and {b} should {'be equal' if want else 'differ'}, but {'!=' if nm == ' negated' else '=='}{' (exchanged)' if nm == ' reversed' else ''} is {t}")
        if want and cls_of(r, x) in HASHABLE:
            try:
                h1, h2 = L.concrete_items(r.I, r.st, r.call(F[f"hash{k}"], x, y))
                R.anchor("hashes")
                t1, t2 = trees(r.st, h1), trees(r.st, h2)
                R.check(f"hash of {key}", True if t1 == t2 else False if t1 and t2 else None, f"gpcm/exppoly.py: {a} and {b} are equal, but their hashes differ")
            except AbsRaise as e:
                R.bad(f"hash of {key}", f"gpcm/exppoly.py: hashing {a} or {b} raises {e.name}")
    R.absorb(r.I)


def poly_hash(R, prop):
    """Equal values have equal hashes, whatever the order in which their sets are iterated."""
    from .c_flow import trees
    res = []
    for order in ("asc", "desc"):
        r, F, vs, c, d = setup_polys(order)
        out = {}
        for k, (a, b) in enumerate(EQUAL):
            try:
                x, y, *_ = L.concrete_items(r.I, r.st, r.call(F[f"eq{k}"], *vs, c, d))
                if cls_of(r, x) in HASHABLE:
                    out[a, b] = [trees(r.st, h) for h in L.concrete_items(r.I, r.st, r.call(F[f"hash{k}"], x, y))]
            except AbsRaise:
                pass
        R.absorb(r.I)
        res.append(out)
    for (a, b), (h1, h2) in res[0].items():
        if (a, b) not in res[1]:
            continue
        g1, g2 = res[1][a, b]
        R.anchor("hashes")
        R.check(f"hash of {a} and of {b} in other orders", h1 == g1 == h2 == g2, f"gpcm/exppoly.py: {a} and {b} are equal, but their hashes depend on the order in which a set is iterated")


# ---------------------------------------------------------------- C16
# Option, and the attribute with the hyperparameter that it fixes.
FIXES = {"fix_noise": "noise", "fix_window": "alpha", "fix_scale": {"GPCM": "gamma", "CGPCM": "gamma", "RGPCM": "lam"}}
SCALES = {"GPCM": ("noise", "alpha", "alpha_t", "gamma", "omega"), "CGPCM": ("noise", "alpha", "alpha_t", "gamma", "omega"), "RGPCM": ("noise", "alpha", "alpha_t", "lam", "gamma")}


def positive(e):
    """Does a registration constrain to positive values?"""
    if e["op"] in ("positive", "pos"):
        return True
    if e["op"] in ("bounded", "bnd"):
        b = e["bounds"] if isinstance(e["bounds"], dict) else {}
        lo = b.get("lower")
        if isinstance(lo, V):
            c = lo.c if lo.is_const else lo.nf.const() if lo.nf is not None else None
            if c is not None:
                return c >= 0
            if lo.nf is not None and nfeval.same(lo.nf, N.NF()) is True:
                return True
        return None
    return False


def hypers(R, prop, model, mode, combo):
    """Which hyperparameters are learnable, from which values, and in which domain."""
    kw = model_args(model, mode)
    for f, b in combo.items():
        kw[f] = num(b)
    fixed = {(a if isinstance(a, str) else a[model]) for f, a in FIXES.items() if combo[f] for a in [FIXES[f]]}
    tag = f"{model} [{mode}] " + (" and ".join(f for f in combo if combo[f]) or "nothing fixed")
    prog = Program()
    # The initial values are not replaced by constants, but the variables are.
    r = Run(prog, contract=fresh_contract)
    site = where_of(prog, model, "__prior__")
    try:
        m = r.build(model, **kw)
        init = {}
        for a in SCALES[model]:
            init[a] = L.asv(r.I, r.st, r.attr(m, a))
        i = r.inst(m)
    except AbsRaise as e:
        R.open(tag, f"raises {e.name}")
        R.absorb(r.I)
        return
    regs = [e for e in r.I.events if e["kind"] == "ps_reg"]
    for a in SCALES[model]:
        R.anchor("hyperparameters")
        v = L.asv(r.I, r.st, r.attr(i, a))
        own = sorted(t[2:] for t in v.tags if t.startswith("v:"))
        key = f"{tag}: {a}"
        if a in fixed:
            R.check(f"{key} is not learnable", not own, f"{site}: {a} depends on the learnable variable {', '.join(own)} although it is fixed ({tag})")
            if a in kw:
                R.same(f"{key} has the value that was given", v.nf, kw[a].nf, f"{site}: {a} is fixed, but its value is {str(v.nf)[:100]} instead of the one that was given ({tag})")
            R.same(f"{key} has the value of the model", v.nf, init[a].nf, f"{site}: {a} is fixed, but its value is {str(v.nf)[:100]} instead of {str(init[a].nf)[:100]} ({tag})")
            continue
        if not own:
            R.bad(f"{key} is learnable", f"{site}: {a} does not depend on any learnable variable although it is not fixed ({tag})")
            continue
        R.ok(f"{key} is learnable", ", ".join(own))
        es = [e for e in regs if "/".join(map(str, e["path"])) in own]
        pos = [positive(e) for e in es]
        R.check(f"{key} is positive", False if False in pos else None if None in pos or not pos else True, f"{site}: {a} is learnt as {', '.join(sorted({str(e['op']) for e in es}))}, which does not constrain it to be positive ({tag})")
        if len(es) == 1 and own == [x for x in own if "/" not in x] and len(own) == 1 and v.nf is not None and v.nf == N.sym(own[0], 0, "+"):
            w = es[0]["init"]
            R.same(f"{key} starts at the given value", w.nf if isinstance(w, V) else None, init[a].nf, f"{site}: {a} starts at {str(w.nf)[:100] if isinstance(w, V) else w} instead of {str(init[a].nf)[:100]} ({tag})")
            if a in kw:
                R.same(f"{key} starts at the argument", w.nf if isinstance(w, V) else None, kw[a].nf, f"{site}: {a} starts at {str(w.nf)[:100] if isinstance(w, V) else w} instead of at the value that was given ({tag})")
    # Every variable is one hyperparameter.
    uses = {}
    for e in regs:
        uses.setdefault(tuple(e["path"]), set()).add((e["op"], repr(e["init"].nf) if isinstance(e["init"], V) else "?"))
    for pth, u in uses.items():
        R.check(f"{tag}: one meaning of {'/'.join(map(str, pth))}", len(u) == 1, f"{site}: the variable {'/'.join(map(str, pth))} is used for {len(u)} different quantities ({tag})")
    R.absorb(r.I)
    return {"/".join(map(str, q)) for q in uses}


def hypers_all(R, prop, model, mode):
    import itertools
    names = {}
    for bs in itertools.product((False, True), repeat=3):
        combo = dict(zip(FIXES, bs))
        names[bs] = hypers(R, prop, model, mode, combo)
    base = names.get((False, False, False))
    if base is None:
        return
    single = {}
    for k, f in enumerate(FIXES):
        bs = tuple(j == k for j in range(3))
        if names[bs] is None:
            continue
        gone, extra = base - names[bs], names[bs] - base
        single[k] = gone
        R.anchor("options")
        R.check(f"{model} [{mode}] {f} removes one variable", len(gone) == 1 and not extra, f"{where_of(Program(), model, '__prior__')}: {f} removes {', '.join(sorted(gone)) or 'no variable'}{' and adds ' + ', '.join(sorted(extra)) if extra else ''} instead of removing exactly one variable ({model})", ", ".join(gone))
    for bs, s in names.items():
        if s is None or sum(bs) < 2:
            continue
        want = base - frozenset().union(*[single.get(k, frozenset()) for k in range(3) if bs[k]])
        R.check(f"{model} [{mode}] options are independent: {bs}", s == want, f"{where_of(Program(), model, '__prior__')}: fixing {' and '.join(f for f, b in zip(FIXES, bs) if b)} removes {', '.join(sorted(base - s))}, but one at a time {', '.join(sorted(base - want))} ({model})")


def defaults_learnable(R, prop, model):
    """Without the options, everything is learnable."""
    r = Run(contract=fresh_contract)
    i = r.inst(r.build(model, **model_args(model, "explicit")))
    for a in SCALES[model]:
        v = L.asv(r.I, r.st, r.attr(i, a))
        R.anchor("hyperparameters")
        R.check(f"{model} {a} is learnable by default", any(t.startswith("v:") for t in v.tags), f"{where_of(r.prog, model, '__prior__')}: {a} is not learnable by default ({model})")
    R.absorb(r.I)


def jobs(prop):
    def f(tier):
        if prop == "C09":
            out = [("c_val", "kept_containers", (prop,))]
            for m in MODELS:
                out += [("c_val", "kept_pipe", (prop, m, s)) for s in SCHEMES]
                out += [("c_val", "kept_options", (prop, m, s, k)) for s in ("structured", "mean-field") for k in ("explicit", "auto")]
                out += [("c_val", "kept_integrals", (prop, m, k)) for k in ("auto", "explicit")]
            return out + [("c_val", "kept_util", (prop, (nm,))) for nm, _ in UTILS]
        if prop == "C16":
            return [("c_val", "hypers_all", (prop, m, k)) for m in MODELS for k in ("explicit", "auto", "auto_y")] + [("c_val", "defaults_learnable", (prop, m)) for m in MODELS]
        if prop == "C10":
            return [("c_val", g, (prop, o)) for o in ("asc", "desc") for g in ("poly_ops", "poly_equal")] + [("c_val", "poly_hash", (prop,))]
    return f
