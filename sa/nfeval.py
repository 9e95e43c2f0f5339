"""Identity test for normal forms: interprets the atoms of two normal forms at random
points and compares. Used to confirm that two normal forms that differ syntactically are
different functions, so that a rewriting that the normaliser does not know about never
raises an alarm. Nothing of the repository is executed: only abstract values are compared."""
import math
import re
import zlib
from fractions import Fraction

import numpy as np

from . import nf as N
from .nf import NF


NOTSHIFTED = set()


class NoEval(Exception):
    pass


SIZES = [3, 2, 4, 5]


NODES = np.polynomial.legendre.leggauss(80)


def bvn(x, y, rho):
    """Distribution function of two standard normals with a correlation. Not a number if there is no such."""
    phi = np.vectorize(lambda z: 0.5 * math.erfc(-z / math.sqrt(2)) if z == z else z, otypes=[float])
    x, y, rho = np.broadcast_arrays(x, y, rho)
    hi = np.arcsin(rho)
    th = hi[..., None] * (NODES[0] + 1) / 2
    f = np.exp(-(x[..., None] ** 2 + y[..., None] ** 2 - 2 * x[..., None] * y[..., None] * np.sin(th)) / (2 * np.cos(th) ** 2))
    return phi(x) * phi(y) + np.sum(f * NODES[1], axis=-1) * hi / 2 / (2 * np.pi)


class Env:
    def __init__(self, seed, shift=None):
        self.seed = seed
        self.shift = shift or {}  # Shifts of symbols.
        self.cache = {}
        self.dimval = {}
        self.memo = {}
        self.salt = ""
        self.move = None  # Distance along a line through this point.
        self.frozen_env = None

    def frozen(self):
        """Another point, at which what is held constant (`sg`) is evaluated. Sizes agree."""
        if self.salt:
            return self
        if self.frozen_env is None:
            e = self.frozen_env = Env(self.seed, self.shift)
            e.dimval = self.dimval
            e.salt = "frozen " if self.move is None else ""
            if self.move is not None:
                e.frozen_env = e
        return self.frozen_env

    def rng(self, key):
        return np.random.default_rng(zlib.crc32((str(self.seed) + key).encode()))

    def dim(self, d):
        """Size of a symbolic dimension."""
        c = d.const()
        if c is not None:
            return int(c)
        if len(d.t) == 1:
            (m, c), = d.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return int(self.dimatom(m[0][0]))
        v = self.ev(d, {})
        return max(int(round(float(v))), 1)

    def dimatom(self, a):
        k = repr(a)
        if k not in self.dimval:
            self.dimval[k] = 2 + zlib.crc32((str(self.seed) + k).encode()) % 4
        return self.dimval[k]

    def sym(self, a, shape):
        key = a[1] if isinstance(a[1], str) else repr(a[1])
        if key.startswith("sg:"):
            return self.frozen().sym((a[0], key[3:]) + tuple(a[2:]), shape)
        k = ("s", key, shape)
        if k in self.cache:
            return self.cache[k]
        r = self.rng(self.salt + key)
        if key == "delta":
            v = np.eye(shape[0], shape[1])
        elif key.startswith("e:"):
            v = np.eye(shape[0])[int(key[2:].split("/")[0])]
        elif key.startswith("#"):
            v = r.uniform(0.5, 2, shape)
        elif "S" in a[3]:
            b = r.normal(size=shape)
            v = b @ np.swapaxes(b, -1, -2) + 0.5 * np.eye(shape[-1])
        elif "+" in a[3]:
            v = r.uniform(0.3, 2.0, shape)
        else:
            v = r.normal(size=shape)
        root = self.root(key)
        if root in self.shift:
            v = v + self.shift[root]
        elif self.shift and key not in NOTSHIFTED and any(k in self.shift for k in re.findall(r"[A-Za-z_][\w.]*", key)):
            raise NoEval("derived from what is shifted")
        if self.move and key != "delta" and not key.startswith(("e:", "#")) and not N.held_fixed(key):
            e = Env(self.seed + 1000)
            v = v + self.move * (e.sym(a, shape) - v)
        self.cache[k] = v
        return v

    @staticmethod
    def root(key):
        """The symbol of which this one is a rearrangement, if any."""
        from .ops import rearranged
        return rearranged(key)[0]

    def labelsizes(self, m, sizes):
        """Sizes of the labels in a monomial, from the declared shapes of atoms."""
        for a, _ in m:
            self.atomsizes(a, sizes)
        return sizes

    def atomsizes(self, a, sizes):
        if a[0] == "s" and a[1] != "delta":
            ds = N.DIMS.get(a[1])
            for k, i in enumerate(a[2]):
                d = ds[k] if ds and k < len(ds) else None
                if d is not None:
                    n = self.dim(d)
                    if sizes.setdefault(i, n) != n:
                        raise NoEval(f"size of {i}")
        elif a[0] == "f" and a[3]:
            s = {}
            for m in a[2][0].t:
                self.labelsizes(m, s)
            for k, i in zip((-2, -1), a[3]):
                if k in s and sizes.setdefault(i, s[k]) != s[k]:
                    raise NoEval("size")
        elif a[0] == "f":
            for x in a[2]:
                self.argsizes(x, sizes)
        elif a[0] == "p":
            self.argsizes(a[1], sizes)

    def argsizes(self, x, sizes):
        """Sizes of the labels in the argument of a function that are not summed within it."""
        own = f"$b{N.bound_depth(x)}_"
        for m in x.t:
            for i, n in self.labelsizes(m, {}).items():
                if not (isinstance(i, str) and i.startswith(own)) and sizes.setdefault(i, n) != n:
                    raise NoEval(f"size of {i}")

    def size(self, i, sizes):
        return sizes.get(i, 3)

    def ev(self, nf, sizes, labels=None):
        """Evaluate to an array with axes `labels` (all free labels by default)."""
        if labels is None:
            labels = sorted(nf.free(), key=repr)
        key = (nf, tuple(labels), tuple(sorted(sizes.items(), key=repr)))
        if key in self.memo:
            return self.memo[key]
        sizes = dict(sizes)
        for _ in range(2):
            for m in nf.t:
                self.labelsizes([x for x in m], s := {})
                for i, n in s.items():
                    if not isinstance(i, tuple):
                        sizes.setdefault(i, n)
        out = np.zeros(tuple(self.size(i, sizes) for i in labels))
        with np.errstate(all="ignore"):
            for m, c in nf.t.items():
                # Names of summed labels are those of one product.
                out = out + float(c) * self.mono(m, {i: k for i, k in sizes.items() if not isinstance(i, tuple)}, labels)
        self.memo[key] = out
        return out

    def mono(self, m, sizes, labels):
        sizes = self.labelsizes(m, dict(sizes))
        # Deltas tie sizes together.
        for a, _ in m:
            if a[0] == "s" and a[1] == "delta":
                i, j = a[2]
                if i in sizes:
                    sizes.setdefault(j, sizes[i])
                elif j in sizes:
                    sizes.setdefault(i, sizes[j])
        ops = []
        allabs = []
        for a, e in m:
            arr, ls = self.atom(a, sizes)
            e = float(e)
            with np.errstate(all="ignore"):
                arr = np.power(arr.astype(complex) if (np.any(arr < 0) and e != int(e)) else arr, e) if e != 1 else arr
            if np.iscomplexobj(arr):
                raise NoEval("complex")
            ops.append((arr, ls))
            for i in ls:
                if i not in allabs:
                    allabs.append(i)
        for i in labels:
            if i not in allabs:
                allabs.append(i)
        # Bound labels stay free here; they are summed by the enclosing function.
        code = {i: k for k, i in enumerate(allabs)}
        args = []
        for arr, ls in ops:
            args += [arr, [code[i] for i in ls]]
        for i in labels:
            args += [np.ones(self.size(i, sizes)), [code[i]]]
        if not args:
            return np.array(1.0)
        return np.einsum(*args, [code[i] for i in labels], optimize="greedy" if len(ops) > 3 else False)

    def arg(self, x, sizes):
        """Evaluate the argument of a function: bound labels of the outermost depth are summed."""
        D = N.bound_depth(x)
        free = set()
        own = set()
        for m in x.t:
            ids = set()
            for a, _ in m:
                ids |= N.atom_idx(a)
            for i in ids:
                if isinstance(i, str) and i.startswith(f"$b{D}_") and self.own(m, i):
                    own.add(i)
                else:
                    if isinstance(i, str) and i.startswith("$b"):
                        # Bound within a nested function only if it does not occur plainly.
                        if not self.plain(m, i):
                            continue
                    free.add(i)
        ls = sorted(free, key=repr)
        out = np.zeros(tuple(self.size(i, sizes) for i in ls))
        s2 = dict(sizes)
        for m, c in x.t.items():
            s3 = self.labelsizes(m, {k: v for k, v in s2.items() if not (isinstance(k, str) and k in own)})
            out = out + float(c) * self.mono(m, s3, ls)
        return out, ls

    def plain(self, m, i):
        return any(a[0] == "s" and i in a[2] or (a[0] == "f" and a[3] and i in a[3]) for a, _ in m)

    def own(self, m, i):
        return True

    def atom(self, a, sizes):
        if a[0] == "n":
            return np.array(float(a[1])), []
        if a[0] == "s":
            if isinstance(a[1], tuple):
                return self.scalar_fn(a[1]), []
            if not a[2]:
                if self.isdim(a):
                    return np.array(float(self.dimatom(a))), []
                return self.sym(a, ()), []
            # Repeated labels select the diagonal.
            ls = list(a[2])
            arr = self.sym(a, tuple(self.size(i, sizes) for i in ls))
            return arr, ls
        if a[0] == "p":
            v, ls = self.arg(a[1], sizes)
            return v, ls
        if a[0] == "f":
            if a[3]:
                M = self.ev(a[2][0], {}, [-2, -1])
                if a[1] == "inv":
                    v = np.linalg.inv(M)
                elif a[1] == "chol":
                    v = np.linalg.cholesky(M)
                elif a[1] == "cinv":
                    v = np.linalg.inv(np.linalg.cholesky(M))
                else:
                    v = self.opaque(a[1], [M])
                return v, list(a[3])
            if a[1] == "sg":
                v, ls = self.frozen().arg(a[2][0], sizes)
                return v, ls
            vs = [self.arg(x, sizes) for x in a[2]]
            ls = []
            for _, l in vs:
                for i in l:
                    if i not in ls:
                        ls.append(i)
            arrs = []
            for v, l in vs:
                perm = [l.index(i) for i in ls if i in l]
                v = np.transpose(v, perm)
                v = v.reshape([v.shape[[i for i in ls if i in l].index(i)] if i in l else 1 for i in ls])
                arrs.append(v)
            return np.broadcast_to(self.func(a[1], arrs), tuple(self.size(i, sizes) for i in ls)), ls
        raise NoEval(a[0])

    def isdim(self, a):
        return a[1] in DIMNAMES or a[1].startswith(("phi", "?"))

    def func(self, name, xs):
        with np.errstate(all="ignore"):
            if name == "exp":
                return np.exp(xs[0])
            if name == "log":
                if np.any(xs[0] <= 0):
                    raise NoEval("log")
                return np.log(xs[0])
            if name in ("abs", "sin", "cos", "sign"):
                return getattr(np, name)(xs[0])
            if name == "erf":
                return np.vectorize(math.erf, otypes=[float])(xs[0])
            if name == "bvn":
                return bvn(*xs)
            if name == "minimum":
                r = xs[0]
                for x in xs[1:]:
                    r = np.minimum(r, x)
                return r
            if name == "maximum":
                r = xs[0]
                for x in xs[1:]:
                    r = np.maximum(r, x)
                return r
            if name in ("ge0",):
                return (xs[0] >= 0) * 1.0
            if name in ("gt0",):
                return (xs[0] > 0) * 1.0
            if name in ("eq0",):
                return (np.abs(xs[0]) < 1e-12) * 1.0
        return self.opaque(name, xs)

    def opaque(self, name, xs):
        """A fixed random smooth function of each tuple of arguments."""
        r = self.rng("fn" + str(name))
        w = r.normal(size=len(xs))
        b = r.normal()
        s = b
        for wi, x in zip(w, xs):
            s = s + wi * x
        return 1.5 + np.sin(s) + 0.3 * np.cos(2.1 * s)

    def scalar_fn(self, key):
        name, arg = key
        if name in ("max", "min"):
            return np.array(getattr(np, name)(self.ev(arg, {})))
        M = self.ev(arg, {}, [-2, -1])
        if name == "logdet":
            s, l = np.linalg.slogdet(M)
            if s == 0 or not np.isfinite(l):
                raise NoEval("logdet")
            return np.array(l)  # Of the absolute value, for which the same identities hold.
        r = self.rng("sf" + str(name))
        return np.array(np.sum(np.sin(M) * r.normal(size=M.shape)))


DIMNAMES = N.held.dims


def elements(nf):
    """Replace fixed elements of arrays (labels `@k`) by symbols of their own."""
    def at(a):
        if a[0] == "s" and not isinstance(a[1], tuple) and any(isinstance(i, str) and i.startswith("@") for i in a[2]):
            ks = tuple(i if isinstance(i, str) and i.startswith("@") else "" for i in a[2])
            rest = tuple(i for i, k in zip(a[2], ks) if not k)
            return N.from_mono(1, [(("s", a[1] + "[" + ",".join(ks) + "]", rest, "".join(c for c in a[3] if c not in "SM")), N.Fraction(1))])
        if a[0] == "p":
            return elements(a[1])
        if a[0] == "f" and not a[3]:
            return N.fn(a[1], *[elements(x) if isinstance(x, N.NF) else x for x in a[2]])
        return N.from_mono(1, [(a, N.Fraction(1))])

    def hit(x):
        return any(isinstance(i, str) and i.startswith("@") for m in x.t for a, _ in m for i in N.atom_idx(a))

    if not hit(nf):
        return nf
    r = N.NF()
    for m, c in nf.t.items():
        x = N.const(c)
        for a, e in m:
            y = at(a)
            x = x * (y.pow(e) if e != 1 else y)
        r = r + x
    return r


def same(a, b, trials=4, piecewise=False):
    """Are two normal forms equal? True, False, or None if undecided. With `piecewise`, they may
    agree at some of the points and still differ."""
    if a == b:
        return True
    try:
        a, b = elements(a), elements(b)
        if a == b:
            return True
    except N.TooBig:
        pass
    try:
        if (a - b).is_zero():
            return True
    except N.TooBig:
        pass
    bad = good = large = 0
    for s in range(trials * 4 if piecewise else trials):
        try:
            env = Env(s)
            ls = sorted(a.free() | b.free(), key=repr)
            sz = {}
            for x in (a, b):
                for m in x.t:
                    t = env.labelsizes(m, {})
                    for i, n in t.items():
                        if not isinstance(i, tuple):
                            sz.setdefault(i, n)
            x, y = env.ev(a, sz, ls), env.ev(b, sz, ls)
            scale = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-9)
            if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
                continue
            if np.max(np.abs(x - y)) > 1e-7 * scale:
                bad += 1
                large += np.max(np.abs(x - y)) > 1e-3 * scale
            else:
                good += 1
        except (NoEval, np.linalg.LinAlgError, N.TooBig):
            continue
    if piecewise and large >= 3:
        return False
    if bad:
        return None if good else False
    return True if good else None


def same_gradient(a, b, trials=4):
    """Do two normal forms have the same value and the same derivatives, if what is held constant
    (`sg`) is evaluated at the same point? True, False, or None if undecided."""
    a, b = elements(a), elements(b)
    h = 1e-3
    bad = good = 0
    for s in range(trials):
        try:
            f = {}
            for x in (a, b):
                for k in (0, 1, -1, 2, -2):
                    env = Env(s)
                    env.move = h * k
                    f[x is b, k] = env.ev(x, {}, sorted(x.free(), key=repr))
            if not all(np.all(np.isfinite(v)) for v in f.values()):
                continue
            g = [(8 * (f[w, 1] - f[w, -1]) - (f[w, 2] - f[w, -2])) / (12 * h) for w in (False, True)]
            x, y = f[False, 0], f[True, 0]
            scale = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-9)
            gscale = max(np.max(np.abs(g[0])), np.max(np.abs(g[1])), 1e-2 * scale)
            e, d = np.max(np.abs(x - y)) / scale, np.max(np.abs(g[0] - g[1])) / gscale
            if e > 1e-6 or d > 1e-3:
                bad += 1
            elif e < 1e-7 and d < 1e-5:
                good += 1
        except (NoEval, np.linalg.LinAlgError, N.TooBig):
            continue
    if bad:
        return None if good else False
    return True if good else None


def invariant(a, weights, want=0.0, trials=4):
    """Does a normal form increase by `want * delta` if symbols shift by `weights * delta`?"""
    bad = good = 0
    for s in range(trials):
        try:
            vals = []
            for d in (0.0, 0.37 + 0.21 * s):
                env = Env(s, {k: w * d for k, w in weights.items()})
                vals.append((d, env.ev(a, {}, sorted(a.free(), key=repr))))
            (_, x), (d, y) = vals
            if x.shape != y.shape:
                bad += 1  # The size itself depends on what was shifted.
                continue
            x = x + want * d
            scale = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-9)
            if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
                continue
            if np.max(np.abs(x - y)) > 1e-7 * scale:
                bad += 1
            else:
                good += 1
        except (NoEval, np.linalg.LinAlgError, N.TooBig):
            continue
    if bad:
        return None if good else False
    return True if good else None


def zero(a):
    return same(a, NF())
