"""Client programs: source text that uses the package, interpreted together with it."""
import ast
from .front import Module
from .interp import Fn


class ClientModule(Module):
    def __init__(self, src, dotted):
        self.path = self.rel = dotted + ".py"
        self.dotted = dotted
        self.src = src
        self.tree = ast.parse(src)
        self.imports, self.fns, self.classes, self.assigns = {}, {}, {}, {}


def client(prog, src, dotted="client"):
    """Add a client to a program. Gives its functions."""
    m = ClientModule(src, dotted)
    prog.modules[dotted] = m
    prog._scan(m)
    return {k: Fn(v) for k, v in m.fns.items()}


UTIL = '''
import jax.numpy as jnp
import lab.jax as B
import numpy as np
from stheno import Normal
from gpcm.util import (
    autocorr, closest_psd, collect, estimate_psd, hessian, invert_perm, laplace_approximation,
    maximum_a_posteriori, min_phase, summarise_samples,
)
from gpcm.normal import NaturalNormal
from gpcm.sample import ESS
from gpcm.exppoly import ExpPoly, const, var


def min_phase_(h):
    return min_phase(h)


def summarise(x, samples):
    return summarise_samples(x, samples)


def summarise_db(x, samples):
    return summarise_samples(x, samples, db=True)


def psd(t, k):
    return estimate_psd(t, k)


def psd_db(t, k):
    return estimate_psd(t, k, n_zero=500, db=True)


def acf(x):
    return autocorr(x)


def acf_lags(x):
    return autocorr(x, lags=10)


def acf_cov(x):
    return autocorr(x, cov=True)


def acf_window(x):
    return autocorr(x, lags=5, cov=True, window=True)


def perm(p):
    return invert_perm(p)


def nearest(a):
    return closest_psd(a)


def nearest_inverse(a):
    return closest_psd(a, inv=True)


def tuple_of(x):
    return collect(a=x, b=x)


def tuple_of_named(x):
    return collect("Name", a=x, b=x)


def hess(x):
    return hessian(lambda z: -B.sum(z**2), x)


def map_estimate(x):
    return maximum_a_posteriori(lambda z: -B.sum(z**2), x)


def laplace(x):
    return laplace_approximation(lambda z: -B.sum(z**2), x)


def laplace_eval(x):
    return laplace_approximation(lambda z: -B.sum(z**2), x, f_eval=lambda z: -B.sum(z**4))


def natural(lam, prec, mean, var, z):
    d = NaturalNormal(lam, prec)
    e = NaturalNormal.from_normal(Normal(mean, var))
    state = B.create_random_state(d.dtype, seed=0)
    state, x = d.sample(state)
    state, xs = d.sample(state, 5)
    return d.dtype, d.dim, d.mean, d.var, d.m2, d.to_normal(), d.kl(e), d.kl(d), d.logpdf(z), x, xs, d.sample(), d.sample(3)


def ess(x):
    s = ESS(lambda z: -B.sum(z**2), lambda: B.randn(x), x)
    s.sample()
    s.move(x)
    return s.sample(num=10), s.x


def ess_prior(x):
    s = ESS(lambda z: -B.sum(z**2), lambda: B.randn(x))
    return s.sample(num=10, trace=True)
'''
UTIL += '''

def polynomials(a, b):
    x, y = var("x"), var("y", 2)
    p = const(a) * x + const(b) * y - 2 * x * y + 1
    q = (p + p) * (x - y) ** 2 - p
    z = p - p
    e = ExpPoly(a, -(q.substitute("x", y))) * ExpPoly(-(x**2 + y**2)) * b
    r = ExpPoly(-(x**2) - y)
    return (
        p.eval(x=a, y=b), q.highest_power("x"), q.is_function_of("y"), q.reject("x"), z.is_constant(), p == q, -p, str(q), hash(x.terms[0]), hash(str(p)), z**0,
        e == r, -e, str(e), e.eval(x=a, y=b), e.substitute("x", y), r.translate_var("x", const(a)).eval(x=a, y=b),
        ExpPoly(-(x**2)).integrate("x"), ExpPoly(-(x**2) - var("y") ** 2 - const(a) * x * var("y")).integrate("x", "y"),
        ExpPoly(-(x**2)).integrate_half("x"), ExpPoly(-(x**2) - var("y") ** 2).integrate_half("x", "y"),
        ExpPoly(-(x**2) - x * y).integrate_box(("x", a, b), y=a), ExpPoly(-(x**2) - x * y).integrate_box(("x", -np.inf, b), y=a),
    )
'''
