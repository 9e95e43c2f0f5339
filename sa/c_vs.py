"""Saving and loading (C15): the variables of a model as an explicit map of names to values.

The names and shapes of the variables are those that the interpretation of construction, fitting
and conditioning registers, for every model and scheme. Saving and loading are interpreted on
that map; values are opaque constants. Conditions that the source puts on values are partitioned
in both ways, so no value can be dropped or changed on some condition without being reported.
"""
from .pipe import *
from .c_pipe import run_pipe
from .report import where_of
from .client import client
from . import lib as L

SRC = '''
def save(model, path):
    model.save(path)


def load(model, path):
    model.load(path)
'''

REG = {"unbounded": None, "ubnd": None, "get": None, "positive": "positive", "pos": "positive", "bounded": "bounded", "bnd": "bounded", "positive_definite": "positive definite", "pd": "positive definite", "lower_triangular": "lower triangular", "tril": "lower triangular", "orthogonal": "orthogonal", "orth": "orthogonal"}


class World:
    """Map of names to variables with the semantics of `varz.Vars`."""

    def __init__(self, vals):
        self.v = dict(vals)
        self.odd = []
        self.notes = {}  # Transformations of values.

    def names(self):
        return Tup([num(k) for k in self.v])

    def key(self, i):
        if isinstance(i, V) and i.is_const and isinstance(i.c, str):
            return i.c
        self.odd.append("a name of a variable that is not known")
        return None

    def get(self, I, st, i, node):
        k = self.key(i)
        if k is None:
            return TOP()
        if k not in self.v:
            raise AbsRaise("KeyError")
        return self.v[k]

    def has(self, i):
        k = self.key(i)
        return None if k is None else k in self.v

    def call(self, I, st, name, args, kw, node):
        if name == "assign":
            k = self.key(args[0] if args else kw.get("name"))
            x = args[1] if len(args) > 1 else kw.get("value")
            if k is None:
                return TOP()
            if k not in self.v:
                raise AbsRaise("KeyError")
            self.v[k] = L.asv(I, st, x)
            self.notes.pop(k, None)
            return self.v[k]
        if name in REG:
            nm = kw.get("name", num(None))
            x = args[0] if args else kw.get("init")
            if isinstance(nm, V) and nm.is_const and nm.c is None:
                return L.asv(I, st, x) if x is not None else TOP()
            k = self.key(nm)
            if k is None:
                return TOP()
            if k not in self.v:
                self.v[k] = L.asv(I, st, x) if x is not None else TOP()
                if REG[name]:
                    self.notes[k] = REG[name]
            return self.v[k]
        if name == "delete":
            k = self.key(args[0] if args else kw.get("name"))
            self.v.pop(k, None)
            return num(None)
        self.odd.append(f"the method `{name}` of the variables")
        return TOP()


def trial(prog, F, model, before, after, script):
    """Save with variables `before` and load where there are variables `after`. `script` fixes the
    outcomes of conditions. Returns (end, decisions, odd, raised, files)."""
    cond, memo = [], {}

    def decide(I, v):
        if id(v) in memo:
            return memo[id(v)][0]
        k = len(cond)
        c = script[k] if k < len(script) else False
        cond.append((c, v.nf is not None and bool(v.nf.atoms()) or any(t in ("value", "sizes") for t in getattr(v, "tags", ()))))
        memo[id(v)] = (c, v)
        return c

    cfg = {"decide": decide}
    r = Run(prog, fresh_contract, None, cfg)
    raised, stage = None, "saving"
    w2 = World(after)
    w1 = World(before)
    files = []
    try:
        # Variables are not needed to construct the model.
        x = r.build(model, **model_args(model, "explicit"))
        y = r.build(model, **model_args(model, "explicit"))
        del cond[:]
        cfg["vsw"] = w1
        dumps = []
        cfg["dump"] = lambda o, f: (dumps.append(o), files.append(("save", f)))
        r.call(F["save"], x, num("path"))
        stage = "loading"
        cfg["vsw"] = w2
        cfg["pickled"] = lambda f: (files.append(("load", f)), dumps[-1] if dumps else TOP())[1]
        if not dumps:
            w2.odd.append("nothing is written with `pickle`")
        r.call(F["load"], y, num("path"))
    except AbsRaise as e:
        raised = (stage, e.name)
    return r, w1, w2, cond, raised, files


def varname(path):
    """Name that `varz` gives to a variable of a structure."""
    out = str(path[0])
    for k in path[1:]:
        out += f"[{k}]" if isinstance(k, int) or str(k).isdigit() else f".{k}"
    return out


def variables(model, scheme):
    """Names and shapes of the variables of a model that was fitted."""
    p = run_pipe(model, scheme, "explicit", ops=("fit", "condition"))
    out = {}
    for e in p.I.events:
        if e["kind"] in ("ps_reg", "ps_write"):
            nm = varname(e["path"])
            x = e.get("init", e.get("value"))
            v = L.asv(p.I, p.st, x) if x is not None else None
            if nm not in out and v is not None:
                out[nm] = v.sh if isinstance(v.sh, tuple) else ()
    return p, out


def val(nm, sh, what):
    return O.atom(f"{what}:{nm}", sh, "").but(tags=frozenset(["value"]))


def roundtrip(R, prop, model, scheme):
    p, names = variables(model, scheme)
    # What was learnt is stored in named variables only.
    for _, e in p.events("fit"):
        if e["kind"] == "vs_reg":
            nm = e["name"]
            R.check(f"{model} {scheme}: variable registered at {e['loc']} has a name", False if nm is None or isinstance(nm, V) and nm.is_const and nm.c is None else True, f"{e['loc']}: a variable without a name is registered, which is not saved ({model}, {scheme})")
    R.check(f"{model} {scheme}: variables of the posterior", True if any("." in k or "[" in k for k in names) else None, "no variables of the posterior were found")
    hyp = {k: s for k, s in names.items() if k in ("noise", "alpha_t", "alpha", "gamma", "omega", "lam")}
    prog = Program()
    F = client(prog, SRC)
    ls, ll = where_of(prog, "AbstractGPCM", "save"), where_of(prog, "AbstractGPCM", "load")
    old = {k: val(k, s, "old") for k, s in names.items()}
    oldh = {k: old[k] for k in hyp}
    rest = {k: v for i, (k, v) in enumerate(old.items()) if i % 2}
    extra = {"other.variable": val("other.variable", (), "old")}
    full = {k: val(k, s, "saved") for k, s in names.items()}
    some = {k: full[k] for k in hyp}
    cases = {
        "a new model": (full, {}),
        "a model that has all variables": (full, old),
        "a model that has variables of other sizes": (full, {k: val(k, tuple(N.sym(f"other_size{i}", 0, "+") for i, _ in enumerate(s)), "old") for k, s in names.items()}),
        "a model that has its hyperparameters only": (full, oldh),
        "a model that has some variables": (full, {**rest, **extra}),
        "a model that was fitted, from one that was not": (some, old),
        "a model that was not fitted, from one that was not": (some, {}),
    }
    for nm, (before, after) in cases.items():
        todo, runs = [[]], 0
        verdict = {}
        while todo and runs < 40:
            script = todo.pop()
            runs += 1
            r, w1, w2, cond, raised, files = trial(prog, F, model, before, after, script)
            if not script:
                # Each condition alone, and all at once.
                todo += [[False] * k + [True] for k in range(min(len(cond), 16))]
                if len(cond) > 1:
                    todo.append([True] * 400)
            firm = all(f for _, f in cond)
            odd = w1.odd + w2.odd
            if not cond:
                firm = True

            def put(key, ok, msg):
                s = "ok" if ok else "bad" if ok is False and firm and not odd else "open"
                o = verdict.get(key)
                if o is None or ("ok", "open", "bad").index(s) > ("ok", "open", "bad").index(o[0]):
                    verdict[key] = (s, msg if not ok or not odd else odd[0])
            if raised:
                put("completes", False, f"{ls if raised[0] == 'saving' else ll}: {raised[0]} raises {raised[1]} ({nm}; {model}, {scheme})")
                continue
            put("completes", True, "")
            for k in before:
                R.anchor("values")
                x = w2.v.get(k)
                if x is None:
                    put(f"{k} is restored", False, f"{ls} and {ll}: {k} is lost when the model is saved and loaded into {nm} ({model}, {scheme})")
                elif k in w2.notes:
                    put(f"{k} is restored", False, f"{ll}: {k} is loaded as a variable that is {w2.notes[k]}, which changes values that are not; the kind of variable is not known when the model is loaded ({nm}; {model}, {scheme})")
                else:
                    s = nfsame(x, before[k])
                    put(f"{k} is restored", s, f"{ls} and {ll}: {k} is {str(x.nf)[:80]} instead of its saved value after it is saved and loaded into {nm} ({model}, {scheme})")
            for k in after:
                if k not in before:
                    x = w2.v.get(k)
                    put(f"{k} is kept", nfsame(x, after[k]) if x is not None else False, f"{ll}: loading changes or removes {k}, which is not in the file ({nm}; {model}, {scheme})")
            for k in w2.v:
                if k not in before and k not in after:
                    put(f"{k} is not invented", False, f"{ll}: loading adds a variable {k}, which was not saved ({nm}; {model}, {scheme})")
            for k in before:
                x = w1.v.get(k)
                put(f"saving keeps {k}", nfsame(x, before[k]) if x is not None else False, f"{ls}: saving changes or removes {k} of the model ({nm}; {model}, {scheme})")
            for what, f in files:
                a = f.f.get("path") if isinstance(f, EObj) else None
                m = f.f.get("mode") if isinstance(f, EObj) else None
                put(f"{what} uses the path", None if not isinstance(a, V) or not a.is_const else a.c == "path", f"{ls if what == 'save' else ll}: uses a different path than the one that was given")
                put(f"{what} uses the mode", None if not isinstance(m, V) or not m.is_const else ("b" in m.c and ("w" if what == "save" else "r") in m.c and "a" not in m.c), f"{ls if what == 'save' else ll}: opens the file with mode {m.c if isinstance(m, V) and m.is_const else m}")
            R.absorb(r.I)
        if todo:
            R.open(f"{model} {scheme}: {nm}", "too many conditions")
        R.anchor("round trips")
        for k, (s, msg) in verdict.items():
            R.add(f"{model} {scheme}: {nm}: {k}", s, msg if s != "ok" else "")


def nfsame(x, y):
    if x.nf is None:
        return None
    if repr(x.nf) == repr(y.nf):
        return True
    if all(v.nf.single() if hasattr(v.nf, "single") else len(v.nf.atoms()) == 1 and len(v.nf.t) == 1 and all(c == 1 for c in v.nf.t.values()) and all(len(m) == 1 and m[0][1] == 1 for m in v.nf.t) for v in (x, y)):
        return False  # Different opaque values.
    return nfeval.same(x.nf, y.nf)


def jobs(prop):
    def f(tier):
        return [("c_vs", "roundtrip", (prop, m, s)) for m in MODELS for s in SCHEMES]
    return f
