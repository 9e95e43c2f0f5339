"""Symmetry of covariances and integrals, from their normal forms (C06)."""
from .pipe import *
from .report import where_of
from .c_pipe import t1s, t2s, find_fn
from . import lib as L


def swapped(v, perm):
    return O.transpose(v, perm)


def blocks(v, perm):
    """Is a tensor that is put together from blocks symmetric?"""
    if v.nf is not None:
        return nfeval.same(v.nf, swapped(v, perm).nf)
    t = v.tree
    if t is None:
        return None
    if t[0] == "take":
        # The same rearrangement of the other axis preserves symmetry.
        u = t[3].tree
        if u is None or u[0] != "take" or u[2] is not t[2] and u[2] != t[2] or {t[1], u[1]} != {-1, -2}:
            return None
        return blocks(u[3], perm)
    # Rows of columns.
    rows = t[2]
    if t[1] not in (-1, -2) or any(x.tree is None or x.tree[0] != "cat" or {x.tree[1], t[1]} != {-1, -2} or len(x.tree[2]) != len(rows) for x in rows):
        return None
    rs = []
    for i, x in enumerate(rows):
        for j in range(i + 1):
            rs.append(blocks(x.tree[2][i], perm) if i == j else equal(x.tree[2][j], swapped(rows[j].tree[2][i], perm)))
    return False if False in rs else None if None in rs else True


def equal(a, b):
    """Are two tensors equal, block for block?"""
    if a.nf is not None and b.nf is not None:
        return nfeval.same(a.nf, b.nf)
    p, q = a.tree, b.tree
    if p is None or q is None or p[0] != q[0] or p[1] != q[1]:
        return None
    if p[0] == "take":
        return equal(p[3], q[3]) if p[2] is q[2] or p[2] == q[2] else None
    if len(p[2]) != len(q[2]):
        return None
    rs = [equal(x, y) for x, y in zip(p[2], q[2])]
    return False if False in rs else None if None in rs else True


def symmetry(R, prop, model, mode):
    r = Run(contract=fresh_contract)
    I, st = r.I, r.st
    x = r.build(model, **model_args(model, mode))
    inst = r.inst(x)
    A = {
        "t1": tin("t1", (t1s,), T=1, w=1), "t2": tin("t2", (t2s,), T=1, w=1),
        "s1": tin("s1", (t1s, 1), T=1, w=1), "s2": tin("s2", (1, t2s), T=1, w=1),
        "t": tin("t1", (t1s,), T=1, w=1),
    }

    def call(f, *args):
        try:
            v = r.method(inst, f, *[A[a] if isinstance(a, str) else a for a in args])
        except AbsRaise as e:
            return None
        v = L.asv(I, st, v)
        return v

    def judge(key, a, b, perm, msg):
        key = f"{model} {key} [{mode}]"
        if a is b and a is not None and a.nf is None and a.tree is not None:
            R.anchor("symmetries")
            return R.check(key, blocks(a, perm), msg)
        if a is None or b is None or a.nf is None or b.nf is None or not O.known(a) or not O.known(b):
            return R.open(key, "no normal form")
        R.anchor("symmetries")
        R.same(key, a.nf, swapped(b, perm).nf, msg)

    for f, nm, perm, args in (
        ("compute_K_u", "covariance of the filter inducing variables", [1, 0], []),
        ("compute_K_z", "covariance of the excitation inducing variables", [1, 0], []),
        ("compute_I_ux", "double filter integral at lag zero", [1, 0], []),
        ("compute_I_hz", "second moment integral of the excitation", [0, 2, 1], ["t"]),
    ):
        v = call(f, *args)
        judge(nm, v, v, perm, f"{where_of(r.prog, model, f)}: the {nm} is not symmetric")
    w = where_of(r.prog, model, "compute_i_hx")
    v, u = call("compute_i_hx", "s1", "s2"), call("compute_i_hx", "s2", "s1")
    judge("kernel integral", v, u, [0, 1], f"{w}: the kernel integral is not symmetric in its two times")
    w = where_of(r.prog, model, "compute_I_ux")
    v, u = call("compute_I_ux", "t1", "t2"), call("compute_I_ux", "t2", "t1")
    judge("double filter integral", v, u, [1, 0, 3, 2], f"{w}: the double filter integral changes if its two times and its two inducing points are exchanged")
    # The prior covariance of the filter.
    if model != "RGPCM":
        try:
            V1, V2 = [r.call(Fn(find_fn(r.prog, "var")), num(q)) for q in ("a", "b")]
            k = [r.method(inst, "k_h", *z) for z in ((V1, V2), (V2, V1))]
            t1, t2 = tin("s1", (t1s, 1), T=1), tin("s2", (1, t2s), T=1)
            k = [L.asv(I, st, r.method(z, "eval", a=t1, b=t2)) for z in k]
            judge("prior covariance of the filter", k[0], k[1], [0, 1], f"{where_of(r.prog, model, 'k_h')}: the prior covariance of the filter is not symmetric")
        except AbsRaise as e:
            R.open(f"{model} prior covariance of the filter [{mode}]", f"raises {e.name}")
    R.absorb(I)


def jobs(prop):
    def f(tier):
        return [("c_sym", "symmetry", (prop, m, "explicit")) for m in MODELS]
    return f
