"""Elliptical slice sampling (C21): the trace of a chain, partitioned by the outcomes of its
comparisons.

The likelihood and the prior are opaque; draws are opaque; all values are symbolic normal forms.
A partition fixes which proposals are rejected and the signs of their angles. Within each
partition the obligations are relations between the values of one step and those of the step
before it, so they hold by induction for chains and rejections of any length.
"""
import re
from .pipe import *
from .report import where_of
from .client import client
from . import lib as L

SRC = '''
from gpcm.sample import ESS


def log_lik(z):
    return None


def prior():
    return None


def chain(x, num):
    s = ESS(log_lik, prior, x)
    out = s.sample(num=num)
    return out, s.x, s.log_lik_x


def chain_prior(x, num):
    s = ESS(log_lik, prior)
    out = s.sample(num=num)
    return out, s.x, s.log_lik_x


def chain_trace(x, num):
    s = ESS(log_lik, prior, x)
    out = s.sample(num=num, trace=True)
    return out, s.x, s.log_lik_x


def chain_moved(x, num):
    s = ESS(log_lik, prior)
    s.sample()
    s.move(x)
    out = s.sample(num=num)
    return out, s.x, s.log_lik_x


def chain_twice(x, num):
    s = ESS(log_lik, prior, x)
    s.sample(num)
    out = s.sample()
    return out, s.x, s.log_lik_x
'''

d = N.sym("d", 0, "+")


class Odd(Exception):
    """The trace has a form that is not understood."""


class Trace:
    """Interpretation of one partition. `script` is a function from the number of the proposal to
    its outcome: `A` for accepted, and `+` or `-` for rejected with an angle of that sign."""

    def __init__(self, entry, script, num_=1):
        self.prog = Program()
        self.log = []
        self.lls, self.odd = {}, []
        F = client(self.prog, SRC)
        self.script = script
        r = Run(self.prog, None, {"client.py:log_lik": self.ll, "client.py:prior": self.prior}, {"decide": self.decide})
        self.r = r
        self.np = 0
        self.seen = set()  # Random draws of the earlier proposals.
        self.raised = None
        self.x0 = tin("x", (d,))
        self.props = []  # Proposals: (name of the value of the likelihood, state).
        self.out = None
        try:
            self.out = r.call(F[entry], self.x0, num(num_))
        except AbsRaise as e:
            self.raised = e.name

    def prior(self, I, st, fn, args, kw, node):
        v = O.atom(f"prior{self.np}", (d,))
        self.np += 1
        self.log.append(("prior", v.nf))
        return v

    def ll(self, I, st, fn, args, kw, node):
        v = L.asv(I, st, args[0] if args else kw["z"])
        if v.nf is None:
            raise Odd("a state of which the likelihood is evaluated is not known")
        k = repr(v.nf)
        if k not in self.lls:
            self.lls[k] = (f"LL{len(self.lls)}", v.nf)
            if self.angles(v.nf):
                self.seen = set().union(*[draws_of(a) for _, p in self.props for a in self.angles(p)])
                self.props.append((self.lls[k][0], v.nf))
        self.log.append(("ll", self.lls[k][0]))
        return O.atom(self.lls[k][0], ())

    @staticmethod
    def angles(nf):
        return [a[2][0] for a in nf.atoms() if a[0] == "f" and a[1] in ("cos", "sin")]

    def decide(self, I, v):
        """The truth value of a comparison within this partition."""
        if v.nf is None:
            self.odd.append(f"{I.loc()}: an unknown condition")
            return True
        try:
            x = self.eval(v.nf)
        except Odd as e:
            self.odd.append(f"{I.loc()}: {e}")
            return True
        return x != 0

    def eval(self, nf):
        tot = 0
        for m, c in nf.t.items():
            x = c
            for a, e in m:
                if a[0] == "f" and a[1] in ("gt0", "ge0") and len(a[2]) == 1:
                    x *= int(self.sign(a[2][0]) > 0)
                else:
                    raise Odd(f"the condition depends on {N.atom_str(a)[:80]}")
            tot += x
        return tot

    def sign(self, diff):
        own = {nm: k for k, (nm, _) in enumerate(self.props)}
        c = {a[1]: q for m, q in diff.t.items() if len(m) == 1 and m[0][1] == 1 for a in [m[0][0]] if a[0] == "s"}
        hit = sorted((own[k], k) for k in c if k in own)
        if hit:
            k, nm = hit[-1]
            self.log.append(("accept", k, diff.scale(1 / c[nm]), self.script(k) == "A"))
            return (1 if self.script(k) == "A" else -1) * (1 if c[nm] > 0 else -1)
        k = len(self.props) - 1
        for th in self.angles(self.props[k][1]) if k >= 0 else ():
            if th.atoms() <= diff.atoms() and draws_of(th) - self.seen:
                for q in (1, -1):
                    z = diff.scale(q)
                    if z == th or (len(z.t) == 1 == len(th.t) and set(z.t) == set(th.t) and list(z.t.values())[0] * list(th.t.values())[0] > 0):
                        return q * (-1 if self.script(k) == "-" else 1)
        if diff.t and all(all(N.positive(a) for a, _ in m) for m in diff.t) and len({q > 0 for q in diff.t.values()}) == 1:
            return 1 if list(diff.t.values())[0] > 0 else -1
        raise Odd(f"the condition depends on the sign of {str(diff)[:80]}")


def draws_of(nf):
    return {a[1] for a in nf.atoms() if a[0] == "s" and isinstance(a[1], str) and a[1].startswith("uniform")}


def span(nf, ud):
    """Name of the draw and bounds of a quantity that is uniform, or `None`."""
    if nf is None:
        return None
    us = sorted((a for m in nf.t for a, _ in m if a[0] == "s" and a[1] in ud), key=lambda a: (len(a[1]), a[1]))
    if not us:
        return None
    a = us[-1]  # The latest; the others are in its bounds.
    if any(dict(m).get(a, 0) not in (0, 1) for m in nf.t):
        return None
    return a[1], nf.subst_atom(a, ud[a[1]][0]), nf.subst_atom(a, ud[a[1]][1])


def draw_name(nf):
    if nf is not None and len(nf.t) == 1:
        (m, c), = nf.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "s":
            return m[0][0][1]
    return None


def audit(R, T, tag, first, moves):
    """Compare a trace with elliptical slice sampling. `first` is the first current state, and
    `moves` maps numbers of samples to states to which the chain is then moved."""
    site = "gpcm/sample.py:ESS"
    I = T.r.I
    ud = {k: (lo.nf, hi.nf) for k, (lo, hi) in getattr(I, "udraws", {}).items()}
    pi2 = N.sym("pi", 0, "+").scale(2)
    accepts = {}
    for e in T.log:
        if e[0] == "accept":
            accepts.setdefault(e[1], set()).add((e[2], e[3]))
    lls = {repr(x): nm for nm, x in T.lls.values()}
    cur = first
    prev = None  # (y, height, lower, upper, angle, sign) of the previous proposal of this sample.
    spent = set()  # Random draws of earlier attempts.
    bad = lambda k, msg: R.bad(k, f"{site}: {msg}")
    for k, (nm, x) in enumerate(T.props):
        R.anchor("proposals")
        key = f"{tag}"
        # The proposal is on the ellipse through the current state.
        ths = {a for a in Trace.angles(x)} - {a for a in Trace.angles(cur)}
        if not ths:
            bad(f"{tag}: fresh angles", f"proposal {k + 1} has no angle of its own ({tag}): {str(x)[:160]}")
            return
        ys = sorted({a[1] for a in x.atoms() if a[0] == "s" and isinstance(a[1], str) and a[1].startswith("prior")} - {a[1] for a in cur.atoms() if a[0] == "s"})
        if len(ys) == 1:
            y = N.sym(ys[0], 1)
        elif prev is not None:
            y = prev[0]
        else:
            bad(f"{tag}: fresh ellipse", f"proposal {k + 1} is not on an ellipse with a fresh sample of the prior ({tag}): {str(x)[:160]}")
            return
        ons = {}
        for th in ths:
            c, s = N.fn("cos", th), N.fn("sin", th)
            ons[th] = True if x == c * cur + s * y or x == c * cur - s * y else nfeval.same(x, c * cur + s * y, piecewise=True)
        th = [t for t, on in ons.items() if on is True]
        if len(th) != 1:
            (bad if set(ons.values()) == {False} else R.open)(f"{tag}: proposals are on the ellipse", f"the proposal {str(x)[:160]} is not cos(theta) times the current state plus sin(theta) times the sample of the prior ({tag})")
            return
        th, = th
        R.ok(f"{tag}: proposals are on the ellipse")
        # Its angle is drawn from the bracket.
        new = prev is None or y != prev[0]
        a, lo, hi = span(th, ud) or (None, None, None)
        # The comparison that decides on it.
        ds = accepts.get(k)
        if not ds:
            bad(f"{tag}: every proposal is compared", f"proposal {k + 1} is not compared with the slice height through its own log-likelihood ({tag})")
            return
        if len(ds) > 1:
            raise Odd("several comparisons for a proposal")
        (diff, acc), = ds
        height = N.sym(nm) - diff
        if new:
            llc = lls.get(repr(cur))
            gap = N.sym(llc) - height if llc else None
            g = draw_name(gap)
            l = None
            if gap is not None and g is None and len((-gap).t) == 1:
                (m, q), = (-gap).t.items()
                if q == 1 and len(m) == 1 and m[0][0][0] == "f" and m[0][0][1] == "log":
                    l = draw_name(m[0][0][2][0])
            okh = (g or "").startswith("exponential") or (l is not None and ud.get(l) is not None and ud[l][0].const() == 0 and ud[l][1].const() == 1)
            R.check(f"{tag}: slice heights are below the current log-likelihood", okh, f"{site}: the slice height minus the log-likelihood of the current state is {str(-gap)[:120] if gap is not None else 'unknown'}, not minus a standard exponential draw ({tag})")
            draw = {g or l, draw_name(y)}
            if a is None:
                raise Odd(f"the angle of proposal {k + 1} is {str(th)[:60]}")
            z0 = None
            if hi - lo == pi2:
                q = span(hi, ud)
                if q is not None and q[1:] == (N.NF(), pi2):
                    z0 = q[0]
            if z0 is None and hi - lo == pi2 and (lo.const() == 0 or hi.const() == 0):
                # The first proposal starts the bracket: it is [angle - 2 pi, angle].
                z0 = a
                lo, hi = th - pi2, th
            R.check(f"{tag}: the first bracket is a full turn around the current state", z0 is not None, f"{site}: the first bracket is [{str(lo)[:60]}, {str(hi)[:60]}], which is not a uniformly placed full turn that contains the current state ({tag})")
            draw |= {z0}
            again = {q for q in draw & spent if q}
            R.check(f"{tag}: every attempt draws afresh", not again, f"{site}: attempts share the random draws {', '.join(sorted(again))} ({tag})")
            spent |= draw
        else:
            _, h0, lo0, hi0, th0, s0 = prev
            R.check(f"{tag}: the height is kept within an attempt", height == h0, f"{site}: the slice height changes from {str(h0)[:80]} to {str(height)[:80]} within an attempt ({tag})")
            want = (lo0, th0) if s0 == "+" else (th0, hi0)
            R.check(f"{tag}: brackets shrink towards the current state", (lo, hi) == want, f"{site}: after a rejection at a {'positive' if s0 == '+' else 'negative'} angle, the next angle is drawn from [{str(lo)[:50]}, {str(hi)[:50]}] instead of [{str(want[0])[:50]}, {str(want[1])[:50]}] ({tag})")
        if a in spent and a != (z0 if new else None):
            bad(f"{tag}: every angle is drawn afresh", f"the angle {a} is used twice ({tag})")
        spent.add(a)
        # All rejected and accepted as decided by the comparison.
        if acc:
            T.states.append(x)
            cur, prev = moves.get(len(T.states), x), None
        else:
            prev = (y, height, lo, hi, th, T.script(k))
    return cur


def one(R, entry, nm, script, n, tag, first):
    try:
        T = Trace(entry, script, n)
    except Odd as e:
        return R.open(tag, str(e))
    T.states = []
    I = T.r.I
    site = "gpcm/sample.py:ESS"
    if T.odd:
        R.open(tag, T.odd[0])
    elif T.raised:
        R.open(tag, f"raises {T.raised}")
    else:
        try:
            x0 = T.x0.nf if first == "x" else N.sym(first, 1)
            cur = audit(R, T, tag, x0, {1: T.x0.nf} if entry == "chain_moved" else {})
            if cur is not None:
                R.anchor("traces")
                out, x, llx = [v for v in T.out.items]
                x, llx = L.asv(I, T.r.st, x), L.asv(I, T.r.st, llx)
                R.check(f"{tag}: the state is the accepted proposal", None if x.nf is None else x.nf == cur, f"{site}: the state is {str(x.nf)[:120]} instead of the accepted proposal {str(cur)[:120]} ({tag})")
                want = {repr(v): k for k, v in T.lls.values()}.get(repr(x.nf))
                R.check(f"{tag}: the stored log-likelihood is that of the state", None if llx.nf is None else draw_name(llx.nf) == want, f"{site}: the stored log-likelihood {str(llx.nf)[:60]} is not that of the state, {want} ({tag})")
                items = L.concrete_items(I, T.r.st, out)
                m = n if entry != "chain_twice" else 1
                if items is None:
                    R.open(f"{tag}: samples", "unknown list")
                else:
                    got = [L.asv(I, T.r.st, v).nf for v in items]
                    R.check(f"{tag}: the samples are the states", got == T.states[-m:] and len(T.states) >= m, f"{site}: {len(got)} samples are returned, which are not the {m} accepted states ({tag})")
        except Odd as e:
            R.open(tag, str(e))
    R.absorb(I)


def scripts():
    """Partitions: outcomes of the first proposals."""
    import itertools
    out = []
    for k in range(4):
        for s in itertools.product("+-", repeat=k):
            out.append("".join(s) + "A")
    return out


def ess(R, prop, what):
    if what == "steps":
        for s in scripts():
            one(R, "chain", "x", lambda k, s=s: s[k] if k < len(s) else "A", 1, f"one sample, outcomes {s}", "x")
    if what == "chains":
        for e, f in (("chain", "x"), ("chain_trace", "x"), ("chain_prior", "prior0")):
            for s in ("AA", "+A-A", "-+AA", "A-A", "+-A+-A"):
                one(R, e, "x", lambda k, s=s: s[k] if k < len(s) else "A", 2, f"{e}, outcomes {s}", f)
    if what == "histories":
        for s in ("+AA-A", "A-+A-A"):
            one(R, "chain_moved", "x", lambda k, s=s: s[k] if k < len(s) else "A", 1, f"moved after a sample, outcomes {s}", "prior0")
            one(R, "chain_twice", "x", lambda k, s=s: s[k] if k < len(s) else "A", 2, f"two calls, outcomes {s}", "x")
    if what == "failures":
        for p in ("+", "-", "+-"):
            for a in ("A", "+-A"):
                tail = a
                one(R, "chain", "x", lambda k, p=p, t=tail: p[k % len(p)] if k < 100 else t[k - 100] if k - 100 < len(t) else "A", 1, f"failed attempt ({p}), then {a}", "x")


def jobs(prop):
    def f(tier):
        return [("c_ess", "ess", (prop, w)) for w in ("steps", "chains", "histories", "failures")]
    return f
