"""Abstract usage contexts: how the public interface of the package is exercised."""
from . import nf as N
from . import nfeval, libfn, libep
from . import lib as L
from . import ops as O
from .dom import *
from .front import Program, AnalysisError
from .interp import Interp, State, Tup, Seq, Ref, Obj, Fn, EObj, PS, ClsV, AbsRaise
from .ops import Z
import ast

n, n_u, n_z, n_p, n_k = [N.sym(x, 0, "+") for x in ("n", "n_u", "n_z", "n_p", "n_k")]
nfeval.DIMNAMES |= {"m_max", "n2", "n", "n_u", "n_z", "n_p", "n_k", "num"}

MODELS = ("GPCM", "CGPCM", "RGPCM")
SCHEMES = (
    "structured", "mean-field", "mean-field-ca", "mean-field-gradient",
    "mean-field-collapsed-gradient", "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient",
)


def find_cls(prog, name):
    for m in prog.modules.values():
        if name in m.classes:
            return m.classes[name]
    raise AnalysisError(f"class {name} not found")


def find_fn(prog, name):
    """Module-level function by name."""
    for m in prog.modules.values():
        if m.dotted.startswith("gpcm") and name in m.fns:
            return m.fns[name]
    raise AnalysisError(f"function {name} not found")


PREFIX = [""]  # Of the names of inputs and stored variables.


def tin(name, shape, T=0, Y=0, w=0, flags="", roots=True, tags=()):
    """Input of the user."""
    name = PREFIX[0] + name
    shape = tuple(N.const(d) if isinstance(d, int) else d for d in shape)
    return O.atom(name, shape, flags, U(T=T, Y=Y), N.const(w) if w else Z, roots=frozenset([name]) if roots else frozenset(), tags=frozenset(tags))


def init_tags(v):
    """Tags of a variable that are those of its initial value. The variable stands for the
    posterior variables that its value was computed from."""
    return frozenset(t for t in v.tags if t not in ("rnd", "lit") and not t.startswith(("grnd:", "v:q_")))


def fresh_contract(I, st, path, op, init):
    """Every stored variable becomes a named constant with the abstract properties of its initial value."""
    if op is None or init is None:
        return None
    v = L.asv(I, st, init)
    name = "/".join(map(str, path))
    if not isinstance(v.sh, tuple):
        return None
    # The same variable is one constant.
    flags = "+" if op in ("positive", "pos", "bounded", "bnd") and v.sh == () else ""
    pd = op in ("positive_definite", "pd")
    if pd:
        flags += "SM"
    x = O.atom(PREFIX[0] + name, v.sh, flags, v.u if v.u != ANY else None, v.w)
    return x.but(tags=init_tags(v) | {"h", "v:" + PREFIX[0] + name})


class Run:
    """An abstract execution with one interpreter."""

    def __init__(self, prog=None, contract=None, hooks=None, cfg=None):
        self.prog = prog or Program()
        self.I = Interp(self.prog, vs_contract=contract, hooks=hooks, domain_cfg=cfg or {})
        self.st = State()
        self.failed = None

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), kw, None, self.st)

    def method(self, r, name, *args, **kw):
        f = self.I.getattr(r, name, self.st, None)
        return self.I.call(f, list(args), kw, None, self.st)

    def attr(self, r, name):
        return self.I.getattr(r, name, self.st, None)

    def build(self, cls, **kw):
        c = find_cls(self.prog, cls)
        return self.I.construct(c, [], kw, None, self.st)

    def inst(self, r):
        return L.instantiate(self.I, self.st, r, force=True)


def model_args(model, mode):
    """Keyword arguments of a model. `mode` is `auto` (from data, window and length scale) or
    `explicit` (all parameters given, which includes the amplitude)."""
    T, Y = 1, 1
    t = tin("t", (n,), T=1, w=1)
    if mode == "auto":
        return dict(t=t, window=tin("window", (), T=1, flags="+"), scale=tin("scale", (), T=1, flags="+"), noise=tin("noise", (), flags="+"))
    if mode in ("extend", "extend explicit", "counts", "inducing"):
        d = model_args(model, "auto")
        num_ = lambda x: V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym(x, 0, "+"))
        if mode == "extend":
            d["extend_t_z"] = num(True)
        if mode == "extend explicit":
            d.update(extend_t_z=num(True), n_z=num_("n_z"), t_u=tin("t_u", (n_u,), T=1), alpha=tin("alpha", (), T=-1 if model == "RGPCM" else -2, flags="+"))
        if mode == "counts":
            d.update(n_z=num_("n_z"), n_u=num_("n_u"))
        if mode == "inducing":
            d["t_u"] = tin("t_u", (n_u,), T=1)
            if model != "RGPCM":
                d["t_z"] = tin("t_z", (n_z,), T=1, w=1)
        return d
    if mode == "auto_y":
        d = model_args(model, "auto")
        d["noise"] = tin("noise", (), Y=2, flags="+")
        d["alpha_t"] = tin("alpha_t", (), Y=1, T=Fr(-1, 2), flags="+")
        return d
    kw = dict(noise=tin("noise", (), Y=2, flags="+"), alpha_t=tin("alpha_t", (), Y=1, T=Fr(-1, 2), flags="+"))
    kw["t_u"] = tin("t_u", (n_u,), T=1)
    if model == "RGPCM":
        kw.update(alpha=tin("alpha", (), T=-1, flags="+"), lam=tin("lam", (), T=-1, flags="+"), gamma=tin("gamma", (), T=-1, flags="+"))
        kw.update(a=tin("a", (), T=1, w=1), b=tin("b", (), T=1, w=1), m_max=V(u=U1, lo=(), sh=(), w=Z, ty="int", nf=N.sym("m_max", 0, "+")))
    else:
        kw.update(alpha=tin("alpha", (), T=-2, flags="+"), gamma=tin("gamma", (), T=-2, flags="+"), omega=tin("omega", (), T=-2, flags="+"))
        kw["t_z"] = tin("t_z", (n_z,), T=1, w=1)
    return kw


def Fr(a, b):
    from fractions import Fraction
    return Fraction(a, b)
