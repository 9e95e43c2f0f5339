"""Identities between normal forms (C17, C25, C27, C28): what the code computes is compared,
as an expression in the integrals, covariances and parameters of the factors, with what the
definitions of the quantities demand."""
from .pipe import *
from .report import where_of
from .c_pipe import comps
from . import lib as L


class TwoSamples(Contract):
    """Stored samples are matrices with two columns."""

    def __call__(self, I, st, path, op, init):
        v = super().__call__(I, st, path, op, init)
        if path[-1:] == ("samples",):
            d = n_u if "q_u" in path else self.us.n_z
            x = O.atom("/".join(map(str, path)), (d, N.const(2)), "", None)
            self.store[path] = x.but(tags=frozenset({"h", "cols"}))
            return self.store[path]
        return v


# -- Reference expressions, in terms of abstract tensors.
T_ = lambda x: O.transpose(x, tuple(range(len(x.sh) - 2)) + (len(x.sh) - 1, len(x.sh) - 2))
mm = lambda *xs: xs[0] if len(xs) == 1 else mm(O.mm2(xs[0], xs[1], "reference"), *xs[2:])
add = lambda *xs: xs[0] if len(xs) == 1 else add(O.vadd(xs[0], xs[1]), *xs[2:])
sub = lambda a, b: O.vadd(a, b, -1)
mul = lambda *xs: xs[0] if len(xs) == 1 else mul(O.vmul(xs[0], xs[1]), *xs[2:])
div = O.vdiv
half = num(0.5)


def dot(a, b, axes=None):
    return O.vsum(O.vmul(a, b), axes)


class Ref_:
    """Definitions."""

    def __init__(self, p, inst, t, y=None):
        I, st = p.I, p.st
        g = lambda f, *a: L.asv(I, st, p.method(inst, f, *a))
        self.K_u, self.K_z = g("compute_K_u"), g("compute_K_z")
        self.Ku_i, self.Kz_i = O.inv(self.K_u), O.inv(self.K_z)
        self.I_hx, self.I_ux, self.I_hz, self.I_uz = g("compute_i_hx", t, t), g("compute_I_ux"), g("compute_I_hz", t), g("compute_I_uz", t)
        self.noise = L.asv(I, st, p.attr(inst, "noise"))
        self.n = O.dimV(t.sh[0])
        self.y = y
        I_ = self.I_uz
        self.A = sub(self.I_ux, mm(I_, self.Kz_i, T_(I_)))
        self.B = sub(self.I_hz, mm(T_(I_), self.Ku_i, I_))
        self.c = add(
            sub(sub(self.I_hx, dot(self.Ku_i, self.I_ux)), dot(self.Kz_i, self.I_hz, (1, 2))),
            dot(self.Ku_i, mm(I_, self.Kz_i, T_(I_)), (1, 2)),
        )

    def m1(self, u, z):
        """First moment of the function at every time, given first moments of the factors."""
        return O.reshape(mm(T_(u), self.I_uz, z), [self.I_uz.sh[0]])

    def m2(self, u2, z2):
        """Second moment of the function at every time, given second moments of the factors."""
        return add(dot(self.A, u2, (1, 2)), dot(self.B, z2, (1, 2)), self.c, dot(mm(self.I_uz, z2, T_(self.I_uz)), u2, (1, 2)))

    def opt_u(self, z, z2, prior):
        """Natural parameters of the optimal factor of u."""
        yI = O.vsum(mul(O.expand(O.expand(self.y, 1), 2), self.I_uz), (0,))
        lam = div(mm(yI, z), self.noise)
        prec = div(add(O.vsum(self.A, (0,)), O.vsum(mm(self.I_uz, z2, T_(self.I_uz)), (0,))), self.noise)
        return self.plus(prior, lam, prec)

    def opt_z(self, u, u2, prior):
        yI = O.vsum(mul(O.expand(O.expand(self.y, 1), 2), self.I_uz), (0,))
        lam = div(mm(T_(yI), u), self.noise)
        prec = div(add(O.vsum(self.B, (0,)), O.vsum(mm(T_(self.I_uz), u2, self.I_uz), (0,))), self.noise)
        return self.plus(prior, lam, prec)

    @staticmethod
    def plus(prior, lam, prec):
        l0, P0 = prior
        return (lam if l0 is None else add(l0, lam)), add(P0, prec)

    def loglik(self, m1, m2):
        """Expected log-likelihood."""
        pi = O.atom("pi", (), "+")
        x = add(sub(dot(self.y, self.y), mul(num(2), dot(self.y, m1))), O.vsum(m2))
        return sub(mul(num(-0.5), self.n, O.vfun("log", mul(num(2), pi, self.noise))), div(mul(half, x), self.noise))


def moments(lam, prec):
    S = O.inv(prec)
    m = mm(S, lam)
    return m, add(S, mm(m, T_(m))), S


def kl(q, p):
    """Divergence of `q` from `p`, both natural parameters."""
    m, _, S = moments(*q)
    l0, P0 = p
    d = O.dimV(P0.sh[-1])
    diff = m if l0 is None else sub(m, mm(O.inv(P0), l0))
    return mul(half, add(O.vsum(mul(P0, S)), O.vsum(mul(mm(P0, diff), diff)), sub(O.logdet(q[1]), O.logdet(P0)), O.vneg(d)))


def logpdf(x, p):
    l0, P0 = p
    d = O.dimV(P0.sh[-1])
    diff = x if l0 is None else sub(x, mm(O.inv(P0), l0))
    pi = O.atom("pi", (), "+")
    return mul(half, sub(sub(O.logdet(P0), mul(d, O.vfun("log", mul(num(2), pi)))), O.vsum(mul(mm(P0, diff), diff))))


class Ctx:
    """A model with a scheme, and its factors."""

    def __init__(self, model, scheme, contract=None):
        self.p = p = Pipe(Program(), model, scheme, "explicit")
        if contract is not None:
            p.contract = p.I.vs_contract = contract(model)
        self.us = p.contract.us
        self.stages = 0

    def par(self, side, i):
        """Natural parameters of a stored factor."""
        c = self.p.contract
        d = n_u if side == "q_u" else self.us.n_z
        out = []
        for leaf, sh, fl in (("lam", (d, ONE), ""), ("prec", (d, d), "SM")):
            path = (side, i, leaf)
            v = c.store.get(path)
            out.append(v if v is not None else O.atom("/".join(map(str, path)), sh, fl, None))
        return tuple(out)

    def prior(self, side, i, ref):
        if i == 0:
            return None, (ref.K_u if side == "q_u" else ref.K_z)
        return self.par(side, i - 1)


def want(R, key, v, ref, msg):
    if not isinstance(v, V) or v.nf is None or ref.nf is None:
        return R.open(key, "no normal form of " + ("the result" if not isinstance(v, V) or v.nf is None else "the reference"))
    R.anchor("identities")
    R.same(key, v.nf, ref.nf, msg)


def ref_elbo(x, r, i, collapsed):
    """Definition of the bound of the mean-field schemes."""
    pu, pz = x.prior("q_u", i, r), x.prior("q_z", i, r)
    qu, qz = x.par("q_u", i), x.par("q_z", i)
    if collapsed == "z":
        m, m2, _ = moments(*qu)
        qz = r.opt_z(m, m2, pz)
    elif collapsed == "u":
        m, m2, _ = moments(*qz)
        qu = r.opt_u(m, m2, pu)
    mu, mu2, _ = moments(*qu)
    mz, mz2, _ = moments(*qz)
    return sub(sub(r.loglik(r.m1(mu, mz), r.m2(mu2, mz2)), kl(qu, pu)), kl(qz, pz)), qu, qz


def mean_field(R, prop, model):
    x = Ctx(model, "mean-field")
    p = x.p
    I, st = p.I, p.st
    obj = p.m
    if prop == "C17":
        # Prediction under the prior.
        inst = p.inst(obj)
        r = Ref_(p, inst, p.tp)
        res = p.op("prior predict", obj, "predict", p.tp)
        tag = f"{model} mean-field, prior"
        if not isinstance(res, Tup) or len(res.items) != 2:
            R.open(f"{tag}: prediction", f"predict raises {p.raised.get('prior predict')}")
        else:
            a, b = [L.asv(I, st, z) for z in res.items]
            m2 = r.m2(O.inv(r.K_u), O.inv(r.K_z))
            where = where_of(I.prog, "MeanField", "predict")
            want(R, f"{tag}: predictive variance", add(sub(b, r.noise), mul(a, a)), m2, f"{where}: under the prior, the predictive variance is not the second moment minus the square of the first moment plus the noise")
    for i in (0, 1):
        t, y = (p.t, p.y) if i == 0 else (p.t2, p.y2)
        inst = p.inst(obj)
        r = Ref_(p, inst, t, y)
        tag = f"{model} mean-field, {'first' if i == 0 else 'second'} posterior"
        where = where_of(I.prog, "MeanField", "elbo")
        for c in (None, "z", "u"):
            ref, qu, qz = ref_elbo(x, r, i, c)
            kw = {} if c is None else {"collapsed": num(c)}
            try:
                v = L.asv(I, st, p.method(obj, "elbo", t, y, **kw))
            except AbsRaise as e:
                R.open(f"{tag}: bound, collapsed={c}", f"raises {e.name}")
                continue
            if prop == "C25":
                want(R, f"{tag}: bound, collapsed={c}", v, ref, f"{where}: the bound (collapsed={c}) is not the expected log-likelihood minus the divergences of both factors from their current priors")
        # What is predicted agrees with the bound.
        post = p.op(f"condition {i}", obj, "condition", t, y)
        if post is None:
            R.open(f"{tag}: prediction", "condition raises")
            return
        tp = t if prop == "C27" else p.tp
        res = p.op(f"predict {i}", post, "predict", tp)
        qu, qz = x.par("q_u", i), x.par("q_z", i)
        mu, mu2, _ = moments(*qu)
        mz, mz2, _ = moments(*qz)
        rp = Ref_(p, inst, tp)
        m1, m2 = rp.m1(mu, mz), rp.m2(mu2, mz2)
        if res is None or not isinstance(res, Tup) or len(res.items) != 2:
            R.open(f"{tag}: prediction", f"predict raises {p.raised.get(f'predict {i}')}")
        else:
            a, b = [L.asv(I, st, z) for z in res.items]
            where = where_of(I.prog, "MeanField", "predict")
            if prop == "C17":
                want(R, f"{tag}: predictive mean", a, m1, f"{where}: the predictive mean is not the first moment")
                want(R, f"{tag}: predictive variance", b, add(sub(m2, mul(m1, m1)), r.noise), f"{where}: the predictive variance is not the second moment minus the square of the first moment plus the noise")
            if prop == "C27" and a.nf is not None and b.nf is not None:
                # Bound implied by the prediction.
                pu, pz = x.prior("q_u", i, r), x.prior("q_z", i, r)
                sec = sub(add(b, mul(a, a)), r.noise)
                impl = sub(sub(r.loglik(a, sec), kl(qu, pu)), kl(qz, pz))
                v = L.asv(I, st, p.method(obj, "elbo", t, y))
                want(R, f"{tag}: bound in terms of predictions", v, impl, f"{where_of(I.prog, 'MeanField', 'elbo')}: the expected squared error in the bound differs from the moments that {where} predicts")
        if prop == "C17":
            f = p.op(f"predict_fourier {i}", post, "predict_fourier")
            if isinstance(f, Tup) and len(f.items) == 2:
                S = O.inv(qz[1])
                w = where_of(I.prog, "MeanField", "predict_z")
                want(R, f"{tag}: Fourier means", L.asv(I, st, f.items[0]), O.reshape(mz, [mz.sh[0]]), f"{w}: not the mean of the factor")
                want(R, f"{tag}: Fourier variances", L.asv(I, st, f.items[1]), O.diag_of(S), f"{w}: not the marginal variances of the factor")
        obj = post
    R.absorb(I)


col = L.column


class Draws:
    """Replaces draws from natural-parameter distributions by symbols, and records them."""

    def __init__(self, p):
        self.log = []
        self.names = {}
        p.I.hooks["NaturalNormal.sample"] = self

    def __call__(self, I, st, fn, args, kw, node):
        b = bind(fn, args, kw)
        if isinstance(b, str):
            return NotImplemented
        a = b["pos"]
        obj = args[0]
        lam, prec = [L.asv(I, st, I.getattr(obj, x, st, node)) for x in ("lam", "prec")]
        num_ = L.asv(I, st, a["num"]) if "num" in a else num(1)
        if not isinstance(prec.sh, tuple) or len(prec.sh) != 2:
            return NotImplemented
        d = prec.sh[0]
        x = O.atom(f"draw{len(self.log) + 1}", (d, O.vdim(num_)), "", None).but(tags=frozenset({"h", "hs", "rnd", "cols"}))
        self.log.append(dict(lam=lam, prec=prec, v=x, side="q_u" if d == n_u else "q_z", loc=I.loc(node)))
        state = a.get("state")
        if state is None:
            from . import libep
            libep.implicit(I, st, node)
            return x
        from . import libep
        return Tup([libep.explicit(I, st, L.asv(I, st, state), node), x])


KNOWN_STRUCTURED = "structured scheme fits again without the posterior that it was conditioned on"


def check_draws(R, key, x, r, draws, i, given=()):
    """Every draw is a draw from a stored factor or from the exact conditional at the latest draw."""
    latest = dict(given)
    for k, dr in enumerate(draws):
        side, other = dr["side"], "q_z" if dr["side"] == "q_u" else "q_u"
        lam, prec = dr["lam"], dr["prec"]
        kk = f"{key}: draw {k + 1} of {'u' if side == 'q_u' else 'z'}"
        msg = f"{dr['loc']}: the distribution of {'u' if side == 'q_u' else 'z'} that is drawn from is neither the stored factor nor its conditional given the latest sample of the other"
        if lam.nf is None or prec.nf is None:
            R.open(kk, "no normal form")
            latest[side] = dr["v"]
            continue
        stored = x.par(side, i)
        if lam.nf == stored[0].nf and prec.nf == stored[1].nf:
            R.ok(kk, "stored factor")
        elif other not in latest:
            R.open(kk, "nothing to condition on")
        else:
            s = latest[other]
            f = r.opt_u if side == "q_u" else r.opt_z
            ref = f(s, mm(s, T_(s)), x.prior(side, i, r))
            pairs = [(lam, ref[0], "shift"), (prec, ref[1], "precision")]
            if i > 0:
                # The conditional should depend on the posterior that is now the prior.
                ref0 = f(s, mm(s, T_(s)), x.prior(side, 0, r))
                if nfeval.same(lam.nf, ref0[0].nf) and nfeval.same(prec.nf, ref0[1].nf):
                    R.bad(KNOWN_STRUCTURED, f"{dr['loc']}: the conditional that is drawn from uses the initial prior")
                    latest[side] = dr["v"]
                    continue
            R.anchor("conditionals")
            for a, b, nm in pairs:
                want(R, f"{kk} ({nm})", a, b, f"{msg} ({nm})")
        latest[side] = dr["v"]


def want_i(R, prop, key, v, ref, pz, pz0, msg):
    """As `want`, where `ref` depends on the prior of the excitation. That the structured scheme
    uses the initial prior also after conditioning is a known finding."""
    if pz is not pz0 and pz != pz0 and v.nf is not None:
        a = ref(pz0).nf
        if a is not None and nfeval.same(v.nf, a):
            if prop == "C27":
                return R.ok(key, "with the initial prior")
            return R.bad(KNOWN_STRUCTURED, msg + "; it uses the initial prior of the excitation instead")
    want(R, key, v, ref(pz), msg)


def structured(R, prop, model):
    x = Ctx(model, "structured", TwoSamples)
    p = x.p
    I, st = p.I, p.st
    D = Draws(p)
    obj = p.m
    state = V(tok=I.newtok("given"), lo=None)
    for i in (0, 1):
        t, y = (p.t, p.y) if i == 0 else (p.t2, p.y2)
        inst = p.inst(obj)
        r = Ref_(p, inst, t, y)
        tag = f"{model} structured, {'first' if i == 0 else 'second'} posterior"
        pu, pz = x.prior("q_u", i, r), x.prior("q_z", i, r)

        def bound_at(u, p0):
            """Log-evidence given a sample of the filter, from its definition."""
            qz = r.opt_z(u, mm(u, T_(u)), p0)
            m, m2, _ = moments(*qz)
            return sub(r.loglik(r.m1(u, m), r.m2(mm(u, T_(u)), m2)), kl(qz, p0))

        pz0 = x.prior("q_z", 0, r)

        # The bound.
        D.log.clear()
        try:
            v = L.asv(I, st, p.method(obj, "elbo", t, y, num_samples=num(2)))
        except AbsRaise as e:
            v = None
            R.open(f"{tag}: bound", f"raises {e.name}")
        us = [d for d in D.log if d["side"] == "q_u"]
        if v is not None:
            where = where_of(I.prog, "Structured", "elbo_collapsed_z")
            if len(us) != 1 or us[0]["v"].sh != (n_u, N.const(2)):
                R.open(f"{tag}: bound", f"{len(us)} draws")
            else:
                cols = [col(us[0]["v"], k) for k in (0, 1)]
                ref = lambda p0: sub(mul(half, add(bound_at(cols[0], p0), bound_at(cols[1], p0))), kl(x.par("q_u", i), pu))
                if prop == "C25" or prop == "C27":
                    want_i(R, prop, f"{tag}: bound", v, ref, pz, pz0, f"{where}: the bound is not the average over samples of u of the log-evidence given u minus the divergence of the factor of u from its current prior")
                if prop == "C25":
                    a = x.par("q_u", i)
                    want(R, f"{tag}: samples of the bound (shift)", us[0]["lam"], a[0], f"{where}: the samples of the bound are not drawn from the factor whose divergence is charged")
                    want(R, f"{tag}: samples of the bound (precision)", us[0]["prec"], a[1], f"{where}: the samples of the bound are not drawn from the factor whose divergence is charged")
        # The objective of the hyperparameters.
        inst = p.inst(obj)
        app = p.attr(inst, "approximation")
        u0 = O.atom("u_given", (n_u, ONE), "", None)
        z0 = O.atom("z_given", (x.us.n_z, ONE), "", None)
        for ns in (1, 2):
            D.log.clear()
            try:
                res = p.method(app, "elbo_gibbs", state, t, y, u0, z0, num_samples=num(ns))
            except AbsRaise as e:
                R.open(f"{tag}: Gibbs objective, {ns} samples", f"raises {e.name}")
                continue
            if not isinstance(res, Tup) or len(res.items) != 4:
                R.open(f"{tag}: Gibbs objective, {ns} samples", "unexpected result")
                continue
            where = where_of(I.prog, "Structured", "elbo_gibbs")
            if prop == "C28":
                check_draws(R, f"{tag}: Gibbs objective, {ns} samples", x, r, list(D.log), i, {"q_u": u0, "q_z": z0})
                for k, side in ((2, "q_u"), (3, "q_z")):
                    last = [d["v"] for d in D.log if d["side"] == side]
                    if last:
                        want(R, f"{tag}: sample of {side[-1]} returned by the Gibbs objective, {ns} samples", L.asv(I, st, res.items[k]), last[-1], f"{where}: does not return the latest sample of {side[-1]}")
            if prop == "C25":
                last = [d["v"] for d in D.log if d["side"] == "q_u"]
                u = last[-1] if last else u0
                want_i(R, prop, f"{tag}: Gibbs objective, {ns} samples", L.asv(I, st, res.items[1]), lambda p0: add(bound_at(u, p0), logpdf(u, pu)), pz, pz0, f"{where}: the objective is not the log-evidence given the sample of u plus the log-density of the sample under its current prior")
        # What is fitted.
        D.log.clear()
        if prop == "C28":
            p.op(f"fit {i}", obj, "fit", t, y, iters=num(4), optimise_hypers=num(False))
            x.us
            check_draws(R, f"{tag}: fit", x, r, list(D.log), i)
        else:
            p.op(f"fit {i}", obj, "fit", t, y)
        post = p.op(f"condition {i}", obj, "condition", t, y)
        if post is None:
            return R.open(f"{tag}: predictions", "condition raises")
        if prop in ("C17", "C27"):
            predictions(R, prop, x, r, tag, i, post, p.tp if prop == "C17" else t)
        obj = post
    R.absorb(I)


def predictions(R, prop, x, r, tag, i, post, tp):
    p = x.p
    I, st = p.I, p.st
    smp = p.contract.store.get(("q_u", i, "samples"))
    zs = p.contract.store.get(("q_z", i, "samples"))
    if smp is None or zs is None or smp.sh != (n_u, N.const(2)):
        return R.open(f"{tag}: predictions", "no samples are stored")
    inst = p.inst(post)
    rp = Ref_(p, inst, tp)
    res = p.op(f"predict {i}", post, "predict", tp)
    where = where_of(I.prog, "Structured", "predict")
    if not isinstance(res, Tup) or len(res.items) != 2:
        return R.open(f"{tag}: predictions", f"predict raises {p.raised.get(f'predict {i}')}")
    a, b = [L.asv(I, st, z) for z in res.items]
    def ref(p0):
        ms = []
        for k in (0, 1):
            u = col(smp, k)
            qz = r.opt_z(u, mm(u, T_(u)), p0)
            m, m2, _ = moments(*qz)
            ms.append((rp.m1(u, m), rp.m2(mm(u, T_(u)), m2)))
        m1 = mul(half, add(ms[0][0], ms[1][0]))
        return m1, mul(half, add(ms[0][1], ms[1][1]))

    # The prior of the excitation does not matter here.
    cands = [ref(x.prior("q_z", j, r)) for j in range(i + 1)]
    m1, m2 = next((c for c in cands if a.nf is not None and nfeval.same(a.nf, c[0].nf)), cands[0])
    want(R, f"{tag}: predictive mean", a, m1, f"{where}: the predictive mean is not the average over samples of the first moment")
    want(R, f"{tag}: predictive variance", b, add(sub(m2, mul(m1, m1)), r.noise), f"{where}: the predictive variance is not the average second moment minus the square of the average first moment plus the noise")
    if prop == "C17":
        f = p.op(f"predict_fourier {i}", post, "predict_fourier")
        w = where_of(I.prog, "Structured", "predict_z")
        if not isinstance(f, Tup) or len(f.items) != 2:
            return R.open(f"{tag}: Fourier features", "no result")
        z = [O.reshape(col(zs, k), [zs.sh[0]]) for k in (0, 1)]
        mz = mul(half, add(*z))
        want(R, f"{tag}: Fourier means", L.asv(I, st, f.items[0]), mz, f"{w}: not the average of the samples")
        want(R, f"{tag}: Fourier variances", L.asv(I, st, f.items[1]), sub(mul(half, add(mul(z[0], z[0]), mul(z[1], z[1]))), mul(mz, mz)), f"{w}: not the average square minus the square of the average")


def updates(R, prop, model, scheme, iters):
    """Values that fitting writes to the factors (C28, C25)."""
    x = Ctx(model, scheme)
    p = x.p
    p.I.cfg["nobreak"] = True
    I, st = p.I, p.st
    obj = p.m
    for i in (0, 1):
        t, y = (p.t, p.y) if i == 0 else (p.t2, p.y2)
        tag = f"{model} {scheme}, {iters} iterations, {'first' if i == 0 else 'second'} posterior"
        I.objvals = []
        p.op(f"fit {i}", obj, "fit", t, y, iters=num(iters))
        if f"fit {i}" in p.raised:
            R.open(tag, f"fit raises {p.raised[f'fit {i}']}")
            return
        r = Ref_(p, p.inst(obj), t, y)
        pu, pz = x.prior("q_u", i, r), x.prior("q_z", i, r)
        qu, qz = x.par("q_u", i), x.par("q_z", i)
        collapsed = "collapsed" in scheme or scheme == "mean-field"
        mom = lambda q: moments(*q)[:2]
        okz, oku = [], []
        if collapsed:
            okz.append(r.opt_z(*mom(qu), pz))
        if "ca" in scheme.split("-") or scheme == "mean-field":
            z = qz
            for _ in range(iters):
                u = r.opt_u(*mom(z), pu)
                z = r.opt_z(*mom(u), pz)
            oku.append(u)
            okz.append(z)
        if prop == "C25" and collapsed:
            # The collapsed factor is stored after the optimisation.
            seq = [e for _, e in p.events(f"fit {i}") if e["kind"] in ("minimise", "ps_write", "vs_assign")]
            at = max((k for k, e in enumerate(seq) if e["kind"] == "minimise"), default=None)
            for leaf in ("lam", "prec"):
                key = f"{tag}: stored {leaf} of the collapsed factor"
                if at is None:
                    R.open(key, "no optimisation")
                    continue
                if any(e["kind"] == "vs_assign" for e in seq[at:]):
                    R.open(key, "unknown variables are assigned")
                    continue
                ws = [e for e in seq[at:] if e["kind"] == "ps_write" and tuple(e["path"]) == ("q_z", i, leaf)]
                if not ws:
                    R.bad(key, f"{seq[at]['loc']}: after this optimisation of the collapsed bound, {leaf} of the collapsed factor q_z/{i} is not stored ({scheme}, {model})")
                    continue
                v = L.asv(I, st, ws[-1]["value"])
                c = [q[leaf == "prec"] for q in okz]
                if v.nf is None or any(q.nf is None for q in c):
                    R.open(key, "no normal form")
                    continue
                res = [nfeval.same(v.nf, q.nf) for q in c]
                R.check(key, True if True in res else None if None in res else False, f"{ws[-1]['loc']}: the {leaf} that is stored for the collapsed factor is not that of the optimal factor for the factor that was optimised ({scheme}, {model})")
        if prop == "C28":
            for s, e in p.events(f"fit {i}"):
                if e["kind"] != "ps_write":
                    continue
                path = tuple(e["path"])
                if path[:1] not in (("q_u",), ("q_z",)) or path[-1] not in ("lam", "prec"):
                    continue
                key = f"{tag}: {'/'.join(map(str, path))} written in {e['where']}"
                v = L.asv(I, st, e["value"])
                c = [q[path[-1] == "prec"] for q in (oku if path[0] == "q_u" else okz)]
                if path[1] != i:
                    R.open(key, "another posterior")
                    continue
                R.anchor("writes")
                if v.nf is None or not c or any(q.nf is None for q in c):
                    R.open(key, "no normal form")
                    continue
                res = [nfeval.same(v.nf, q.nf) for q in c]
                R.check(key, True if True in res else None if None in res else False, f"{e['loc']}: {path[-1]} of the factor of {path[0][-1]} is not that of the optimal factor for the current other factor ({scheme}, {model})")
        if prop == "C25":
            # Objectives of gradient-based fits.
            for k, v in enumerate(getattr(I, "objvals", [])):
                c = "z" if "collapsed" in scheme or scheme == "mean-field" else None
                ref, _, _ = ref_elbo(x, r, i, c)
                want(R, f"{tag}: objective, evaluation {k + 1}", v, O.vneg(ref), f"objective of the optimisation in {where_of(I.prog, 'MeanField', 'elbo')} for {scheme}: not minus the bound")
            for s, e in p.events(f"fit {i}"):
                if e["kind"] != "minimise":
                    continue
                key = f"{tag}: variables that the optimisation excludes"
                names = e["names"]
                c = "collapsed" in scheme or scheme == "mean-field"
                if names is None or names == "?" or "?" in names:
                    R.open(key, "names are not known") if names != None or not c else R.bad(key, f"{e['loc']}: no variables are excluded from the optimisation")
                    continue
                ex = lambda v, n: any(f"$all:{v}/{n}" == q.lstrip("-") and q.startswith("-") for q in names)
                R.anchor("optimisations")
                if c:
                    R.check(key + " (collapsed factor)", ex("q_z", i), f"{e['loc']}: the collapsed factor q_z/{i} is not excluded from the optimisation of the collapsed bound ({scheme}, {model}); excluded: {names}")
                R.check(key + " (other factor)", not ex("q_u", i), f"{e['loc']}: the factor q_u/{i} is excluded from the optimisation, but nothing else fits it ({scheme}, {model})")
                if not c:
                    R.check(key + " (collapsed factor)", not ex("q_z", i), f"{e['loc']}: the factor q_z/{i} is excluded from the optimisation of the bound, which is not collapsed ({scheme}, {model})")
        obj = p.op(f"condition {i}", obj, "condition", t, y)
        if obj is None:
            return
    R.absorb(I)


class Steps:
    """Names the result of every application of a fixed-point update, and records the update."""

    def __init__(self, p):
        self.log = []
        self.on = True
        for side in ("q_u", "q_z"):
            p.I.hooks[f"Approximation.{side}_optimal_mean_field"] = lambda I, st, fn, args, kw, node, side=side: self.step(side, I, st, fn, args, kw, node)

    def step(self, side, I, st, fn, args, kw, node):
        if not self.on:
            return NotImplemented
        b = bind(fn, args, kw)
        if isinstance(b, str):
            return NotImplemented
        q = [v for v in b["pos"].values() if isinstance(v, Ref) and I.obj(st, v).kind == "inst" and I.obj(st, v).cls is not None and I.obj(st, v).cls.name == "NaturalNormal"]
        self.on = False
        try:
            r = I.invoke(fn, None, args, kw, node, st)
        finally:
            self.on = True
        if len(q) != 1 or not isinstance(r, Ref):
            return r
        get = lambda o: tuple(L.asv(I, st, I.getattr(o, z, st, node)) for z in ("lam", "prec"))
        out = get(r)
        k = len(self.log)
        new = []
        for nm, v, fl in zip(("lam", "prec"), out, ("", "SM")):
            x = O.atom(f"step{k}/{nm}", v.sh, fl, v.u, v.w) if isinstance(v.sh, tuple) else v
            x = x.but(tags=v.tags)
            new.append(x)
            I.set(st, r, nm, x)
        self.log.append(dict(side=side, arg=get(q[0]), out=out, new=tuple(new), loc=I.loc(node)))
        return r


def chain(R, prop, model, iters):
    """Fixed-point iterations are alternate exact updates, each from the latest other factor."""
    x = Ctx(model, "mean-field-ca")
    p = x.p
    p.I.cfg["nobreak"] = True
    I, st = p.I, p.st
    obj = p.m
    S = Steps(p)
    for i in (0, 1):
        t, y = (p.t, p.y) if i == 0 else (p.t2, p.y2)
        tag = f"{model} coordinate ascent, {iters} iterations, {'first' if i == 0 else 'second'} posterior"
        S.log.clear()
        p.op(f"fit {i}", obj, "fit", t, y, iters=num(iters))
        if f"fit {i}" in p.raised or not S.log:
            R.open(tag, f"no updates: {p.raised.get(f'fit {i}')}")
            return
        r = Ref_(p, p.inst(obj), t, y)
        latest = {"q_u": x.par("q_u", i), "q_z": x.par("q_z", i)}
        for k, e in enumerate(S.log):
            side, other = e["side"], "q_z" if e["side"] == "q_u" else "q_u"
            key = f"{tag}: update {k + 1} ({side[-1]})"
            f = r.opt_u if side == "q_u" else r.opt_z
            ref = f(*moments(*latest[other])[:2], x.prior(side, i, r))
            for a, b, nm in zip(e["out"], ref, ("shift", "precision")):
                R.anchor("updates")
                want(R, f"{key} ({nm})", a, b, f"{e['loc']}: update {k + 1} of the factor of {side[-1]} is not the exact update from the latest factor of {other[-1]} ({nm})")
            latest[side] = e["new"]
        for s, e in p.events(f"fit {i}"):
            if e["kind"] == "ps_write" and tuple(e["path"])[0] in ("q_u", "q_z") and e["path"][-1] in ("lam", "prec"):
                side, leaf = e["path"][0], e["path"][-1]
                v = L.asv(I, st, e["value"])
                want(R, f"{tag}: stored {leaf} of {side[-1]}", v, latest[side][leaf == "prec"], f"{e['loc']}: what is stored for {side[-1]} is not the result of the last update")
        obj = p.op(f"condition {i}", obj, "condition", t, y)
        if obj is None:
            return
    R.absorb(I)


def held(v):
    """A value that is held constant in differentiation."""
    return v.but(nf=N.held(v.nf))


def gradients(R, prop, model, scheme):
    """What objectives of hyperparameters depend on, and how (C23). A value that is held constant
    is the same expression at another point: an objective that is equal to the reference for all
    pairs of points has the same derivatives, and otherwise the derivatives are compared."""
    two = scheme == "structured"
    x = Ctx(model, scheme, TwoSamples if two else None)
    p = x.p
    I, st = p.I, p.st
    I.cfg["sgnf"] = True
    D = Draws(p) if two else None
    state = V(tok=I.newtok("given"), lo=None)
    obj = p.m

    def judge(key, v, refs, msg):
        if v.nf is None or any(q.nf is None for q in refs):
            return R.open(key, "no normal form")
        R.anchor("objectives")
        res = []
        for q in refs:
            ok = nfeval.same(v.nf, q.nf)
            res.append(nfeval.same_gradient(v.nf, q.nf) if ok is not True else ok)
        R.check(key, True if True in res else None if None in res else False, msg)

    for i in (0, 1):
        t, y = (p.t, p.y) if i == 0 else (p.t2, p.y2)
        inst = p.inst(obj)
        r = Ref_(p, inst, t, y)
        tag = f"{model} {scheme}, {'first' if i == 0 else 'second'} posterior"
        pu = x.prior("q_u", i, r)
        if two:
            def refs(u, sign=1):
                out = []
                for p0 in [x.prior("q_z", j, r) for j in range(i + 1)]:
                    su = held(u)
                    qz = r.opt_z(su, mm(su, T_(su)), p0)
                    m, m2, _ = moments(*qz)
                    b = add(sub(r.loglik(r.m1(su, m), r.m2(mm(su, T_(su)), m2)), kl(qz, p0)), logpdf(su, pu))
                    out.append(b if sign == 1 else O.vneg(b))
                return out

            where = where_of(I.prog, "Structured", "elbo_gibbs")
            msg = f"{where}: the objective of the hyperparameters is not that in which the Gibbs sample is held constant in every term and everything else is differentiated ({model})"
            app = p.attr(inst, "approximation")
            u0 = O.atom("u_given", (n_u, ONE), "", None)
            z0 = O.atom("z_given", (x.us.n_z, ONE), "", None)
            for ns in (1, 2):
                D.log.clear()
                try:
                    res = p.method(app, "elbo_gibbs", state, t, y, u0, z0, num_samples=num(ns))
                except AbsRaise as e:
                    R.open(f"{tag}: Gibbs objective, {ns} samples", f"raises {e.name}")
                    continue
                last = [d["v"] for d in D.log if d["side"] == "q_u"]
                if not isinstance(res, Tup) or len(res.items) != 4 or not last:
                    R.open(f"{tag}: Gibbs objective, {ns} samples", "unexpected result")
                    continue
                judge(f"{tag}: Gibbs objective, {ns} samples", L.asv(I, st, res.items[1]), refs(last[-1]), msg)
            D.log.clear()
            I.cfg["drawlog"] = D.log
            I.objvals, I.objdraws = [], []
            I.cfg["nobreak"] = True
            p.op(f"fit {i}", obj, "fit", t, y, iters=num(4), num_samples=num(2))
            R.check(f"{tag}: fitting optimises an objective", True if I.objvals else None, "no objective")
            for k, (v, c) in enumerate(zip(I.objvals, I.objdraws)):
                last = [d["v"] for d in D.log[:c] if d["side"] == "q_u"]
                if last:
                    judge(f"{tag}: objective of the optimisation, evaluation {k + 1}", v, refs(last[-1], -1), msg)
        else:
            I.objvals = []
            p.op(f"fit {i}", obj, "fit", t, y, iters=num(5))
            for k, v in enumerate(I.objvals):
                c = "z" if "collapsed" in scheme or scheme == "mean-field" else None
                ref, _, _ = ref_elbo(x, r, i, c)
                judge(f"{tag}: objective of the optimisation, evaluation {k + 1}", v, [O.vneg(ref)], f"{where_of(I.prog, 'MeanField', 'elbo')}: the objective of {scheme} is not the bound that is differentiated through all of its terms and through the collapsed factor ({model})")
            if not I.objvals and "ca" not in scheme:
                R.open(f"{tag}: fitting optimises an objective", "no objective")
        obj = p.op(f"condition {i}", obj, "condition", t, y)
        if obj is None:
            return
    R.absorb(I)


def normal(R, prop, zero):
    """Coherence of the distribution in natural parameters."""
    from . import libep
    r = Run()
    I, st = r.I, r.st
    d = N.sym("dim", 0, "+")
    tag = "zero mean" if zero else "general mean"
    mk = lambda k: (num(0) if zero else O.atom(f"lam{k}", (d, ONE), "", None), O.atom(f"prec{k}", (d, d), "SM", None))
    new = lambda q: r.build("NaturalNormal", lam=q[0], prec=q[1])
    W = lambda m: where_of(r.prog, "NaturalNormal", m)

    def get(o, a, *args, call=False):
        try:
            v = r.method(o, a, *args) if call else r.attr(o, a)
        except AbsRaise as e:
            return None
        return v

    def isv(v):
        return v is not None and isinstance(L.asv(I, st, v), V)

    def judge(key, v, ref, msg):
        if v is None:
            return R.open(f"{key} ({tag})", "raises")
        v = L.asv(I, st, v)
        if zero and isinstance(v, V) and v.is_const and v.c == 0:
            v = V(u=ANY, lo=(), sh=ref.sh, w=Z, nf=NF())
        want(R, f"{key} ({tag})", v, ref, msg)

    q1, q2 = mk(1), mk(2)
    ref = lambda q: (None if zero else q[0], q[1])
    if zero:
        m, S = V(u=ANY, lo=(), sh=(d, ONE), w=Z, nf=NF()), O.inv(q1[1])
        m2 = S
    else:
        m, m2, S = moments(*q1)
    for order in (("mean", "var", "m2"), ("m2", "var", "mean")):
        o = new(q1)
        for a in order:
            for again in ("", " (cached)"):
                v = get(o, a)
                if zero and a == "mean":
                    continue
                judge(f"{a} of NaturalNormal, {'first' if a == order[0] else 'after others'}{again}", v, {"mean": m, "var": S, "m2": m2}[a], f"{W(a)}: not the {dict(mean='mean', var='variance', m2='second moment')[a]}")
    o, o2 = new(q1), new(q2)
    if not zero:
        k0 = kl(ref(q1), ref(q2))
        judge("divergence", get(o, "kl", o2, call=True), k0, f"{W('kl')}: not the divergence from the other distribution")
        z1 = (num(0), q2[1])
        judge("divergence from a zero-mean distribution", get(o, "kl", new(z1), call=True), kl(ref(q1), (None, q2[1])), f"{W('kl')}: not the divergence from the other distribution")
    x = O.atom("x", (d, ONE), "", None)
    judge("log-density", get(o, "logpdf", x, call=True), logpdf(x, ref(q1)), f"{W('logpdf')}: not the log-density")
    if not zero:
        mu, V_ = O.atom("mu", (d, ONE), "", None), O.atom("Sigma", (d, d), "SM", None)
        try:
            f = r.I.call(r.I.getattr(ClsV(find_cls(r.prog, "NaturalNormal")), "from_normal", st, None), [libep.normal(mu, V_)], {}, None, st)
            judge("precision of a converted distribution", get(f, "prec"), O.inv(V_), f"{W('from_normal')}: not the inverse of the variance")
            judge("natural mean of a converted distribution", get(f, "lam"), mm(O.inv(V_), mu), f"{W('from_normal')}: not the product of the precision and the mean")
        except AbsRaise:
            R.open("converted distribution", "raises")
        t = get(new(q1), "to_normal", call=True)
        if isinstance(t, EObj) and t.kind == "normal":
            judge("mean after conversion", t.f["mean"], m, f"{W('to_normal')}: not the mean")
            judge("variance after conversion", t.f["var"], S, f"{W('to_normal')}: not the variance")
        else:
            R.open("conversion", "not a normal distribution")
    # Samples: affine in independent standard normals, with the mean and the variance.
    old = libep.noise_like
    try:
        out = []
        for e in ("zero", "eye"):
            libep.noise_like = lambda I, rows, cols, node: V(u=ANY, lo=(), sh=(rows, cols), w=Z, nf=NF() if e == "zero" else O.delta(d))
            tok = V(tok=I.newtok("given"), lo=None)
            res = get(new(q1), "sample", tok, O.dimV(d), call=True)
            if not isinstance(res, Tup) or len(res.items) != 2:
                out.append(None)
                continue
            out.append(L.asv(I, st, res.items[1]))
        a, b = out
        w = [f for f in (W("sample"),)][0]
        if a is None or b is None or a.nf is None or b.nf is None:
            R.open(f"sample ({tag})", "no normal form")
        else:
            if not zero:
                mb = V(u=ANY, lo=(), sh=(d, d), w=Z, nf=m.nf)
                R.anchor("identities")
                R.same(f"mean of a sample ({tag})", a.nf, m.nf, f"{w}: the mean of a sample is not the mean of the distribution")
            M = V(u=None, lo=(), sh=(d, d), w=Z, nf=b.nf - a.nf)
            R.anchor("identities")
            R.same(f"variance of a sample ({tag})", mm(M, T_(M)).nf, S.nf, f"{w}: the variance of a sample is not the variance of the distribution")
    finally:
        libep.noise_like = old
    R.absorb(I)


def jobs(prop):
    def f(tier):
        if prop == "C23":
            return [("c_nf", "gradients", (prop, m, s)) for m in MODELS for s in SCHEMES]
        if prop == "C29":
            return [("c_nf", "normal", (prop, z)) for z in (False, True)]
        out = [("c_nf", g, (prop, m)) for m in MODELS for g in ("mean_field", "structured") if not (prop == "C28" and g == "mean_field")]
        if prop in ("C25", "C28"):
            for s in SCHEMES[1:]:
                for m in MODELS if s in ("mean-field", "mean-field-ca", "mean-field-gradient") or tier != "quick" else ("GPCM",):
                    out.append(("c_nf", "updates", (prop, m, s, 1)))
            if prop == "C28":
                for m in MODELS:
                    out.append(("c_nf", "chain", (prop, m, 3)))
        return out
    return f
