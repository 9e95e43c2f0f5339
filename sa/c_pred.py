"""Samples of kernels, filters and functions (C37): what is sampled, and from which distribution.

Draws are affine in symbolic standard normals, so that the mean and the covariance of every sample
are normal forms (by Wick's formula), which are compared with those that the model implies."""
from .pipe import *
from .report import where_of
from .c_pipe import find_fn
from .c_nf import Ctx, Ref_, TwoSamples, T_, mm, add, sub, mul, want, col, moments, dot
from .ctx import find_cls
from .interp import Seq
from . import lib as L
from . import libep


class Undecided(Exception):
    pass


class Wrong(Exception):
    pass


def eps_of(m):
    out = []
    for a, e in m:
        if a[0] == "s" and str(a[1]).startswith("eps"):
            if e != 1:
                return None
            out.append(a)
    return out


def split(nf):
    """Mean of an affine function of standard normals, and the part that is random."""
    mean, rnd = N.NF(), N.NF()
    for m, c in nf.t.items():
        e = eps_of(m)
        if e is None or len(e) > 1 or "eps" in repr([a for a, _ in m if a not in (e or ())]):
            raise Undecided("not affine in the draws")
        if e:
            rnd = rnd + N.NF({m: c})
        else:
            mean = mean + N.NF({m: c})
    return mean, rnd


def delta(i, j):
    """Factors that identify two indices: None if these differ."""
    if i == j:
        return []
    const = lambda x: isinstance(x, str)
    if const(i) and const(j):
        return None
    if const(i) or const(j):
        raise Undecided("a column that is not constant")
    return [(("s", "delta", (i, j), "S"), 1)]


def cov(x):
    """Mean and covariance of a vector."""
    from fractions import Fraction
    if not isinstance(x, V) or x.nf is None or not isinstance(x.sh, tuple) or len([d for d in x.sh if d != ONE]) != 1:
        raise Undecided("no normal form")
    k = next(i for i, d in enumerate(x.sh) if d != ONE)
    x = O.reshape(x, [x.sh[k]])
    mean, rnd = split(x.nf)
    # The other element has another index.
    two = O.vmul(O.expand(x.but(nf=rnd), 1), O.expand(x.but(nf=rnd), 0)).nf
    C = N.NF()
    for m, c in two.t.items():
        e = eps_of(m)
        names = [a[1] for a in e or ()]
        if e is None or len(e) not in (1, 2):
            raise Undecided("products of draws")
        if len(e) == 1 or names[0] != names[1]:
            if len(e) == 1:
                raise Undecided("a square of draws")
            continue
        rest = [f for f in m if f[0] not in e]
        fs = []
        for i, j in zip(e[0][2], e[1][2]):
            d = delta(i, j)
            if d is None:
                fs = None
                break
            fs += [(a, Fraction(p)) for a, p in d]
        if fs is not None:
            C = C + N.from_mono(c, rest + fs)
    d = x.sh[0]
    return x.but(nf=mean), V(u=ANY, lo=(), sh=(d, d), w=None, nf=C)


def method(prog, model, name):
    ms = prog.methods(find_cls(prog, model), name)
    return ms[0].where if ms else None


# -- the kernel given the inducing variables
def given(R, prop, model):
    x = Ctx(model, "structured")
    p = x.p
    I, st = p.I, p.st
    inst = p.inst(p.m)
    r = Ref_(p, inst, p.t)
    ts = tin("t_s", (n_p,), T=1)
    where = where_of(I.prog, model, "kernel_approx") if method(I.prog, model, "kernel_approx") else "kernel_approx"
    for flat in (True, False):
        u = O.atom("u", (n_u,) if flat else (n_u, ONE), "", None)
        for a, b in ((p.tk, ts), (p.tk, p.tk)):
            key = f"{model}: kernel given u{' as a column' if not flat else ''}{' at equal times' if a is b else ''}"
            try:
                k = L.asv(I, st, p.method(inst, "kernel_approx", a, b, u))
            except AbsRaise as e:
                R.open(key, f"raises {e.name}")
                continue
            g = lambda f, *z: L.asv(I, st, p.method(inst, f, *z))
            i_hx, I_ux = g("compute_i_hx", O.expand(a, 1), O.expand(b, 0)), g("compute_I_ux", a, b)
            uc = O.reshape(u, [n_u, ONE])
            v = mm(r.Ku_i, uc)
            ref = add(sub(i_hx, O.vsum(mul(r.Ku_i, I_ux), (2, 3))), O.vsum(mul(I_ux, mm(v, T_(v))), (2, 3)))
            want(R, key, k, ref, f"{where}: not the kernel of the model averaged over filters that agree with the inducing variables, i_hx - tr(K_u^-1 I_ux) + u' K_u^-1 I_ux K_u^-1 u ({model})")
    R.absorb(I)


# -- what predictions sample
class Watch:
    """Replaces functions by symbols, and records their arguments."""

    def __init__(self, p):
        self.p = p
        self.kernels, self.psds, self.summaries, self.gps = [], [], [], []
        I = p.I
        for q in ("estimate_psd", "summarise_samples"):
            I.hooks[find_fn(I.prog, q)[0].where] = getattr(self, q)

    def bound(self, fn, args, kw):
        b = bind(fn, args, kw)
        if isinstance(b, str):
            raise Undecided(b)
        return b["pos"]

    def kernel(self, I, st, fn, args, kw, node):
        a = list(self.bound(fn, args, kw).values())
        t1, t2, u = [L.asv(I, st, z) for z in a[-3:]]
        k = O.atom(f"kernel{len(self.kernels) + 1}", (t1.sh[0], t2.sh[0]), "", None)
        self.kernels.append((t1, t2, u, k, I.loc(node)))
        return k

    def estimate_psd(self, I, st, fn, args, kw, node):
        a = self.bound(fn, args, kw)
        t, k = L.asv(I, st, a["t"]), L.asv(I, st, a["k"])
        db = a.get("db")
        i = len(self.psds) + 1
        n_f = N.sym("n_f", 0, "+")
        f, s = O.atom("freqs", (n_f,), "", None), O.atom(f"psd{i}", (n_f,), "+", None)
        self.psds.append((t, k, L.asv(I, st, db) if db is not None else num(False), f, s, I.loc(node)))
        return Tup([f, s])

    def summarise_samples(self, I, st, fn, args, kw, node):
        a = self.bound(fn, args, kw)
        self.summaries.append((L.asv(I, st, a["x"]), L.asv(I, st, a["samples"]), L.asv(I, st, a["db"]) if "db" in a else num(False), I.loc(node)))
        return num(None)

    def clear(self):
        for l in (self.kernels, self.psds, self.summaries, self.gps):
            del l[:]


def rows(p, x):
    """Rows of an array with two of them."""
    if isinstance(x, V) and isinstance(x.sh, tuple) and x.sh and x.sh[0].const() is not None and x.sh[0].const() != 2:
        raise Wrong(f"{x.sh[0].const()} samples are summarised if two are asked for")
    if not isinstance(x, V) or not isinstance(x.sh, tuple) or not x.sh or x.sh[0] != N.const(2):
        raise Undecided("not two samples")
    return [L.asv(p.I, p.st, L.getitem(p.I, p.st, x, num(k), None)) for k in (0, 1)]


def equal(a, b):
    return a is not None and b is not None and a.nf is not None and b.nf is not None and a.nf == b.nf


def predictions(R, prop, model, scheme):
    x = Ctx(model, scheme, TwoSamples if scheme == "structured" else None)
    p = x.p
    I, st = p.I, p.st
    W = Watch(p)
    wk = method(I.prog, model, "kernel_approx")
    p.op("fit", p.m, "fit", p.t, p.y)
    post = p.op("condition", p.m, "condition", p.t, p.y)
    I.hooks[wk] = W.kernel
    two = num(2)
    for kind, obj in (("prior", p.m), ("posterior", post)):
        if obj is None:
            R.open(f"{model} {scheme} {kind}", "no posterior")
            continue
        inst = p.inst(obj)
        r = Ref_(p, inst, p.t)

        def filters(key, us, where, name):
            """Are these samples of the inducing variables?"""
            cols = None
            if kind == "posterior" and scheme == "structured":
                smp = p.contract.store.get(("q_u", 0, "samples"))
                if smp is None or smp.sh != (n_u, N.const(2)):
                    return R.open(f"{key}: inducing variables", "no samples are stored")
                cols = [mm(r.K_u, col(smp, k)) for k in (0, 1)]
            for k, u in enumerate(us):
                kk = f"{key}: inducing variables of sample {k + 1}"
                if cols is not None:
                    u = O.reshape(u, [n_u]) if O.known(u) else u
                    if u.nf is None:
                        R.open(kk, "no normal form")
                    else:
                        R.anchor("draws")
                        ref = [O.reshape(c, [n_u]) for c in cols]
                        j = next((c for c in ref if c.nf == u.nf), ref[k])
                        R.same(kk, u.nf, j.nf, f"{where}: {name} is given other values of the inducing variables than the stored samples, K_u times the whitened ones ({key})")
                    continue
                try:
                    m, C = cov(u)
                except Undecided as e:
                    R.open(kk, str(e))
                    continue
                if kind == "prior":
                    rm, rc = V(u=ANY, lo=(), sh=(n_u,), w=Z, nf=N.NF()), r.K_u
                else:
                    lam, prec = x.par("q_u", 0)
                    a, _, S = moments(lam, prec)
                    rm, rc = O.reshape(mm(r.K_u, a), [n_u]), mm(r.K_u, S, T_(r.K_u))
                R.anchor("draws")
                R.same(f"{kk}, mean", m.nf, rm.nf, f"{where}: the mean of the inducing variables that {name} is given is not that under the {kind} ({key})")
                R.same(f"{kk}, covariance", C.nf, rc.nf, f"{where}: the covariance of the inducing variables that {name} is given is not that under the {kind} ({key})")
            if len(us) == 2 and all(u.nf is not None for u in us):
                R.check(f"{key}: samples differ", us[0].nf != us[1].nf, f"{where}: every sample is the same ({key})")

        def kernels(key, where):
            """Kernels at the lags that are asked for, given samples."""
            if not W.kernels:
                R.open(f"{key}: kernels", "unknown")
                return False
            for t1, t2, u, k, loc in W.kernels:
                a, b = t1.nf, t2.nf
                if a is None or b is None:
                    R.open(f"{key}: lags", "unknown")
                    continue
                lag = lambda s, o: s.nf == p.tk.nf and not o.nf.t
                R.anchor("lags")
                if lag(t1, t2) or lag(t2, t1):
                    R.ok(f"{key}: lags")
                else:
                    # The kernel is not stationary, but its samples are those at lags from zero.
                    R.same(f"{key}: lags", (t1.nf if t1.sh != (ONE,) else t2.nf), p.tk.nf, f"{loc}: the kernel is not sampled at the given times ({key})")
                    R.same(f"{key}: origin", (t2.nf if t1.sh != (ONE,) else t1.nf), N.NF(), f"{loc}: the kernel is not sampled at lags from zero ({key})")
            filters(key, [z[2] for z in W.kernels], where, "the kernel")
            return True

        def independent(key):
            """Every draw uses a random state that nothing was drawn from before."""
            if key in p.raised:
                return
            es = [e for _, e in p.events(key)]
            for e in es:
                if e["kind"] == "tok_reuse":
                    R.bad(f"{key}: independence", f"{e['loc']}: samples are not independent: draws from a random state that was already used to draw ({key})")
            R.anchor("draws")
            R.ok(f"{key}: independence", f"{sum(e['kind'] == 'draw' for e in es)} draws")

        flat = lambda k: O.reshape(k, [next((d for d in k.sh if d != ONE), ONE)])
        # Kernels.
        where = where_of(I.prog, model, "predict_kernel")
        key = f"{model} {scheme} {kind}: predict_kernel"
        W.clear()
        try:
            p.op(key, obj, "predict_kernel", p.tk, num_samples=two)
            independent(key)
            if kernels(key, where) and len(W.summaries) == 1:
                a, s, db, loc = W.summaries[0]
                want(R, f"{key}: times", a, p.tk, f"{loc}: the times of the prediction are not those that are given ({key})")
                for k, (row, z) in enumerate(zip(rows(p, s), W.kernels)):
                    want(R, f"{key}: sample {k + 1}", row, flat(z[3]), f"{loc}: what is summarised is not the sampled kernel ({key})")
                R.check(f"{key}: scale", not (db.is_const and db.c), f"{loc}: the kernel is summarised in decibels ({key})")
            else:
                R.open(f"{key}: summary", f"{len(W.summaries)} summaries")
        except Undecided as e:
            R.open(key, str(e))
        except Wrong as e:
            R.bad(key, f"{where}: {e} ({key})")
        # Spectra.
        where = where_of(I.prog, model, "predict_psd")
        key = f"{model} {scheme} {kind}: predict_psd"
        W.clear()
        try:
            p.op(key, obj, "predict_psd", p.tk, num_samples=two)
            independent(key)
            if kernels(key, where) and len(W.summaries) == 1 and len(W.psds) == 2:
                a, s, db, loc = W.summaries[0]
                want(R, f"{key}: frequencies", a, W.psds[0][3], f"{loc}: the inputs of the prediction are not the frequencies ({key})")
                for k, (row, q) in enumerate(zip(rows(p, s), W.psds)):
                    want(R, f"{key}: spectrum {k + 1}", row, q[4], f"{loc}: what is summarised is not the spectrum of a sampled kernel ({key})")
                    want(R, f"{key}: kernel of spectrum {k + 1}", q[1], flat(W.kernels[k][3]), f"{q[5]}: the spectrum is not that of a sampled kernel ({key})")
                    want(R, f"{key}: times of spectrum {k + 1}", q[0], p.tk, f"{q[5]}: the spectrum is computed with other times than those of the kernel ({key})")
                    if db.is_const and q[2].is_const:
                        R.check(f"{key}: scale of spectrum {k + 1}", bool(db.c) != bool(q[2].c), f"{loc}: the prediction is {'in decibels of decibels' if db.c else 'not in decibels'} ({key})")
            else:
                R.open(f"{key}: summary", f"{len(W.summaries)} summaries, {len(W.psds)} spectra")
        except Undecided as e:
            R.open(key, str(e))
        except Wrong as e:
            R.bad(key, f"{where}: {e} ({key})")
        # Filters.
        where = where_of(I.prog, model, "predict_filter")
        key = f"{model} {scheme} {kind}: predict_filter"
        W.clear()
        I.cfg["gpsamples"] = W.gps
        try:
            p.op(key, obj, "predict_filter", p.tk, num_samples=two, min_phase=num(False))
            independent(key)
            if len(W.gps) == 2 and len(W.summaries) == 1:
                a, s, db, loc = W.summaries[0]
                want(R, f"{key}: times", a, p.tk, f"{loc}: the times of the prediction are not those that are given ({key})")
                R.check(f"{key}: scale", not (db.is_const and db.c), f"{loc}: the filter is summarised in decibels ({key})")
                for k, (row, g) in enumerate(zip(rows(p, s), W.gps)):
                    want(R, f"{key}: sample {k + 1}", row, flat(g["v"]), f"{loc}: what is summarised is not the sampled filter ({key})")
                    want(R, f"{key}: times of sample {k + 1}", g["t"], p.tk, f"{g['loc']}: the filter is sampled at other times than those that are given ({key})")
                    R.check(f"{key}: noise of sample {k + 1}", not g["noise"], f"{g['loc']}: adds noise to the filter ({key})")
                    R.check(f"{key}: conditioning of sample {k + 1}", len(g["cond"]) == 1, f"{g['loc']}: the filter is conditioned {len(g['cond'])} times on inducing variables ({key})")
                    for tu, u in g["cond"]:
                        want(R, f"{key}: inducing points of sample {k + 1}", tu, L.asv(I, st, p.attr(inst, "t_u")), f"{g['loc']}: the inducing variables are values of the filter at the inducing points, not at other times ({key})")
                if all(len(g["cond"]) == 1 for g in W.gps):
                    filters(key, [g["cond"][0][1] for g in W.gps], where, "the filter")
            else:
                R.open(f"{key}: summary", f"{len(W.summaries)} summaries, {len(W.gps)} samples")
        except Undecided as e:
            R.open(key, str(e))
        except Wrong as e:
            R.bad(key, f"{where}: {e} ({key})")
        finally:
            I.cfg.pop("gpsamples", None)
    R.absorb(I)


# -- samples of the prior
def sample(R, prop, model):
    p = Pipe(Program(), model, "structured", nf=True)
    I, st = p.I, p.st
    where = where_of(I.prog, model, "sample")
    wk = method(I.prog, model, "kernel_approx")
    wc = find_fn(I.prog, "closest_psd")[0].where
    inst = p.inst(p.m)
    r = Ref_(p, inst, p.t)
    for norm in (None, False, True):
        key = f"{model}: sample(normalise={norm})"
        ks, ps = [], []

        def kern(I, st, fn, args, kw, node):
            b = bind(fn, args, kw)
            t1, t2, u = [L.asv(I, st, z) for z in list(b["pos"].values())[-3:]]
            k = O.atom(f"kernel{len(ks) + 1}", (t1.sh[0], t2.sh[0]), "S", None)
            ks.append((t1, t2, u, k))
            return k

        def close(I, st, fn, args, kw, node):
            a = L.asv(I, st, args[0])
            v = O.atom(f"repaired{len(ps) + 1}", a.sh, "SM", None)
            ps.append((a, v))
            return v

        I.hooks[wk], I.hooks[wc] = kern, close
        kw = {} if norm is None else {"normalise": num(norm)}
        res = p.op(key, p.m, "sample", p.t, **kw)
        del I.hooks[wk], I.hooks[wc]
        if not isinstance(res, Tup) or len(res.items) != 2 or len(ks) != 1 or len(ps) > 1:
            R.open(key, f"{len(ks)} kernels, raises {p.raised.get(key)}")
            continue
        K, y = [L.asv(I, st, z) for z in res.items]
        t1, t2, u, k = ks[0]
        want(R, f"{key}: times", t1, p.t, f"{where}: the kernel is not sampled at the given times ({key})")
        want(R, f"{key}: other times", t2, p.t, f"{where}: the kernel is not sampled at the given times ({key})")
        try:
            m, C = cov(u)
            R.anchor("draws", 1)
            R.same(f"{key}: mean of the inducing variables", m.nf, N.NF(), f"{where}: the inducing variables are not zero on average ({key})")
            R.same(f"{key}: covariance of the inducing variables", C.nf, r.K_u.nf, f"{where}: the covariance of the inducing variables is not K_u ({key})")
        except Undecided as e:
            R.open(f"{key}: inducing variables", str(e))
        first = k
        for _ in range(2):
            first = L.asv(I, st, L.getitem(I, st, first, num(0), None))
        ref = O.vdiv(k, first) if norm else k
        want(R, f"{key}: kernel", K, ref, f"{where}: the kernel that is returned is not the one that is sampled{', divided by its value at the first time' if norm else ''} ({key})")
        P = ref
        if ps:
            want(R, f"{key}: covariance of the function", ps[0][0], ref, f"{where}: the function is sampled with another covariance than the kernel that is returned ({key})")
            P = ps[0][1]
        try:
            m, C = cov(y)
            R.anchor("draws", 1)
            R.same(f"{key}: mean of the function", m.nf, N.NF(), f"{where}: the function is not zero on average ({key})")
            noise = mul(L.asv(I, st, p.attr(inst, "noise")), V(u=ANY, lo=(), sh=(n, n), w=Z, nf=O.delta(n)))
            R.same(f"{key}: covariance of the observations", C.nf, add(P, noise).nf, f"{where}: the covariance of the sampled observations is not the kernel plus the noise ({key})")
        except Undecided as e:
            R.open(f"{key}: observations", str(e))
    R.absorb(I)


# -- the prior of the filter
def filter_prior(R, prop, model):
    """The filter that predictions condition on inducing variables has their covariance."""
    r = Run(contract=fresh_contract)
    I, st = r.I, r.st
    kw = model_args(model, "explicit")
    inst = r.inst(r.build(model, **kw))
    key = f"{model}: covariance of the filter"
    where = where_of(r.prog, model, "k_h")
    try:
        tu = L.asv(I, st, r.attr(inst, "t_u"))
        # After the origin, where a causal filter is not zero.
        pos = O.atom("s", tu.sh, "+", tu.u if isinstance(tu.u, tuple) else None)
        I.setattr(inst, "t_u", pos, st, None)
        K_u = L.asv(I, st, r.method(inst, "compute_K_u"))
        Kh = libep.kernel_eval(I, st, r.method(inst, "k_h"), O.expand(pos, 1), O.expand(pos, 0), None)
    except AbsRaise as e:
        return R.open(key, f"raises {e.name}")
    except Exception as e:
        return R.open(key, f"unknown kernel: {e}")
    if not isinstance(Kh, V) or Kh.nf is None or K_u.nf is None:
        return R.open(key, "no normal form")
    R.anchor("kernels")
    k = KNOWN_FILTER if model == "RGPCM" else key
    R.same(k, Kh.nf, K_u.nf, f"{where}: predictions of the filter condition it on the inducing variables with another covariance, at times after the origin, than that of the inducing variables, K_u ({model})")
    R.absorb(I)


KNOWN_FILTER = "RGPCM predicts a filter of which the inducing variables are not values"


def jobs(prop):
    def f(tier):
        return [("c_pred", g, (prop, m)) for m in MODELS for g in ("given", "sample", "filter_prior")] + [("c_pred", "predictions", (prop, m, s)) for m in MODELS for s in ("structured", "mean-field") + (tuple(SCHEMES[2:]) if tier != "quick" else ())]
    return f
