"""Index normal forms: sums of monomials over indexed atoms.

A normal form is a sum of monomials; a monomial is a rational coefficient times a
product of atoms raised to rational powers. Atoms carry axis labels, so that an array
of rank r is described elementwise: label -1 is the last axis, -2 the one before it,
and so on. Labels ('d', k) are summed over. Equal expressions up to associativity,
commutativity, distributivity, renaming of summed labels and merging of exponentials get
the same normal form. This is an abstract domain (value numbering); nothing is executed.
"""
from fractions import Fraction

MAXTERMS = 600


class TooBig(Exception):
    pass


def _key(x):
    return repr(x)


def prime_factors(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
        if p > 10000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class NF:
    __slots__ = ("t", "_h", "_r", "_s")

    def __init__(self, terms=None):
        self.t = terms or {}
        self._h = None
        self._r = None
        self._s = None

    # Hash and equality by canonical representation.
    def key(self):
        if self._r is None:
            self._r = tuple(sorted(((m, c) for m, c in self.t.items()), key=_key))
        return self._r

    def __repr__(self):
        if self._s is None:
            self._s = "+".join(
                (str(c) if not m else (("" if c == 1 else str(c) + "*") + mono_str(m)))
                for m, c in self.key()
            ) if self.t else "0"
        return self._s

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, other):
        return isinstance(other, NF) and self.t == other.t

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    # Arithmetic.
    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        if len(r) > MAXTERMS:
            raise TooBig
        return NF(r)

    def __neg__(self):
        return NF({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, q):
        q = Fraction(q)
        return NF({m: c * q for m, c in self.t.items()}) if q else NF()

    def __mul__(self, o):
        if len(self.t) * len(o.t) > MAXTERMS * 4:
            raise TooBig
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m2r = rename_apart(m2, m1)
                for c, m in mono_mul(m1, m2r):
                    v = r.get(m, 0) + c * c1 * c2
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = v
        if len(r) > MAXTERMS:
            raise TooBig
        return NF(r)

    def pow(self, q):
        q = Fraction(q)
        if q == 0:
            return const(1)
        if q == 1:
            return self
        if not self.t:
            if q > 0:
                return NF()
            raise TooBig
        dummies = bool(self.dummies())
        if q.denominator == 1 and 0 < q <= 6 and (len(self.t) <= 6 or q <= 2):
            r = self
            for _ in range(int(q) - 1):
                r = r * self
            return r
        if len(self.t) == 1 and not dummies:
            (m, c), = self.t.items()
            if c > 0 and (q.denominator == 1 or all(positive(a) or (e * q).denominator == 1 and e == 1 and q.denominator == 1 for a, e in m)):
                cc = Fraction(1)
                extra = []
                for n, s in ((c.numerator, 1), (c.denominator, -1)):
                    for p, k in prime_factors(n).items():
                        extra.append((("n", p), Fraction(k * s) * q))
                return from_mono(1, list((a, e * q) for a, e in m) + extra)
            if c < 0 and q.denominator == 1:
                return NF({m: -c}).pow(q).scale(1 if q % 2 == 0 else -1)
        # Normalise the content of the sum by its leading coefficient.
        lead = self.key()[0][1]
        if q.denominator != 1:
            lead = abs(lead)
        base = bind(self.scale(1 / lead))
        r = from_mono(1, [(("p", base), q)])
        return r * const(lead).pow(q) if lead != 1 else r

    def atoms(self):
        out = set()
        for m in self.t:
            for a, _ in m:
                collect_atoms(a, out)
        return out

    def dummies(self):
        out = set()
        for m in self.t:
            out |= mono_idx(m, dummies=True)
        return out

    def free(self):
        out = set()
        for m in self.t:
            out |= mono_idx(m, dummies=False)
        return out

    def remap(self, f):
        """Relabel the free axes."""
        return self.relabelled(lambda i: f(i) if isinstance(i, int) else i)

    def relabelled(self, f):
        """Apply a function to all labels, which include summed and named ones."""
        r = {}
        for m, c in self.t.items():
            for c2, m2 in canon([(remap_atom(a, f), e) for a, e in m]):
                v = r.get(m2, 0) + c * c2
                if v == 0:
                    r.pop(m2, None)
                else:
                    r[m2] = v
        return NF(r)

    def relabel(self, old, new):
        """Rename a named (string) label."""
        r = NF()
        for m, c in self.t.items():
            for c2, m2 in canon([(remap_atom(a, lambda i: new if i == old else i), e) for a, e in m]):
                r = r + NF({m2: c * c2})
        return r

    def sum_over(self, label, dim):
        """Sum over a free axis with size `dim` (a normal form or `None`)."""
        r = NF()
        for m, c in self.t.items():
            if label in mono_idx(m, dummies=False):
                ds = mono_idx(m, dummies=True)
                k = 0
                while ("d", k) in ds:
                    k += 1
                new = NF()
                for c2, m2 in canon([(remap_atom(a, lambda i: ("d", k) if i == label else i), e) for a, e in m]):
                    new = new + NF({m2: c * c2})
                r = r + new
            else:
                if dim is None:
                    raise TooBig
                r = r + NF({m: c}) * dim
        return r

    def subst_atom(self, atom, nf):
        """Substitute a normal form for a scalar atom that occurs polynomially."""
        r = NF()
        for m, c in self.t.items():
            x = const(c)
            for a, e in m:
                if a == atom:
                    x = x * nf.pow(e)
                else:
                    x = x * from_mono(1, [(a, e)])
            r = r + x
        return r

    def is_zero(self):
        x = self
        for _ in range(6):
            if not x.t:
                return True
            neg = {}
            for m in x.t:
                for a, e in m:
                    if a[0] == "p" and e < 0 and e.denominator == 1:
                        neg[a] = max(neg.get(a, 0), -e)
            if not neg:
                return False
            try:
                for a, k in neg.items():
                    y = NF()
                    for m, c in x.t.items():
                        e = dict(m).get(a, Fraction(0))
                        if mono_idx(((a, 1),), dummies=True) or has_bound(a[1]):
                            return False
                        rest = NF({tuple(z for z in m if z[0] != a): c})
                        y = y + (rest * a[1].pow(e + k) if e + k > 0 else rest)
                    x = y
            except TooBig:
                return False
        return not x.t


def bound_depth(nf):
    """Largest nesting depth of bound labels in a normal form."""
    d = 0
    for m in nf.t:
        for i in mono_idx(m, None):
            if isinstance(i, str) and i.startswith("$b"):
                d = max(d, int(i[2:].split("_")[0]))
    return d


def has_bound(nf):
    return bound_depth(nf) > 0


def bind(nf):
    """Bind the summed labels of the argument of an elementwise function."""
    ds = nf.dummies()
    if not ds:
        return nf
    D = bound_depth(nf) + 1
    out = {}
    for m, c in nf.t.items():
        for c2, m2 in canon([(remap_atom(a, lambda i: f"$b{D}_{i[1]}" if isinstance(i, tuple) else i), e) for a, e in m]):
            v = out.get(m2, 0) + c * c2
            if v == 0:
                out.pop(m2, None)
            else:
                out[m2] = v
    return NF(out)


def mono_str(m):
    return "*".join(atom_str(a) + ("" if e == 1 else f"^{e}") for a, e in m)


def atom_str(a):
    if a[0] == "s":
        return str(a[1]) + ("[" + ",".join(str(i if not isinstance(i, tuple) else "d%d" % i[1]) for i in a[2]) + "]" if a[2] else "")
    if a[0] == "f":
        return f"{a[1]}({', '.join(map(str, a[2]))})" + (str(list(a[3])) if a[3] else "")
    if a[0] == "p":
        return f"({a[1]})"
    return str(a[1])


def positive(a):
    if a[0] == "n":
        return True
    if a[0] == "s":
        return "+" in a[3]
    if a[0] == "f":
        return a[1] == "exp"
    if a[0] == "p":
        return all(c > 0 and all(positive(b) for b, _ in m) for m, c in a[1].t.items())
    return False


def collect_atoms(a, out):
    out.add(a)
    if a[0] == "f":
        for x in a[2]:
            if isinstance(x, NF):
                out |= x.atoms()
    if a[0] == "p":
        out |= a[1].atoms()


def atom_idx(a):
    if a[0] == "s":
        return set(a[2])
    if a[0] == "f":
        out = set(a[3])
        for x in a[2]:
            if isinstance(x, NF) and not a[3]:
                for m in x.t:
                    out |= mono_idx(m, None)
        return out
    if a[0] == "p":
        out = set()
        for m in a[1].t:
            out |= mono_idx(m, None)
        return out
    return set()


def mono_idx(m, dummies):
    out = set()
    for a, _ in m:
        for i in atom_idx(a):
            isd = isinstance(i, tuple)
            if dummies is None or isd == dummies:
                out.add(i)
    return out


NESTED = [0]  # Labels of sums within functions belong to the enclosing product.


def within(x, f):
    """Relabel the argument of a function."""
    NESTED[0] += 1
    try:
        return x.relabelled(f)
    finally:
        NESTED[0] -= 1


def remap_atom(a, f):
    if a[0] == "s":
        idx = tuple(f(i) for i in a[2])
        if "S" in a[3] and len(idx) >= 2:  # Symmetric in the last two axes.
            idx = idx[:-2] + tuple(sorted(idx[-2:], key=_key))
        return ("s", a[1], idx, a[3])
    if a[0] == "f":
        if a[3]:  # Opaque matrix function with own axes; the argument is closed.
            idx = tuple(f(i) for i in a[3])
            if a[1] in ("inv",):
                idx = tuple(sorted(idx, key=_key))
            return ("f", a[1], a[2], idx)
        return ("f", a[1], tuple(within(x, f) if isinstance(x, NF) else x for x in a[2]), a[3])
    if a[0] == "p":
        return ("p", within(a[1], f))
    return a


def rename_apart(m2, m1):
    d1 = mono_idx(m1, True)
    d2 = mono_idx(m2, True)
    if not (d1 & d2):
        return m2
    n = 1 + max(k for _, k in d1 | d2)
    ren = {}
    for d in sorted(d2):
        ren[d] = ("d", n)
        n += 1
    return tuple((remap_atom(a, lambda i: ren.get(i, i)), e) for a, e in m2)


def mono_mul(m1, m2):
    return canon(list(m1) + list(m2))


def simplify_pairs(items):
    """Rewrite contractions of a matrix function with its argument."""
    changed = True
    while changed:
        changed = False
        count = {}
        for a, e in items:
            for i in (a[2] if a[0] == "s" else a[3] if a[0] == "f" and a[3] else atom_idx(a)):
                if isinstance(i, tuple):
                    count[i] = count.get(i, 0) + (1 if e == 1 else 5)
        done = False
        for x in range(len(items)):
            for y in range(len(items)):
                if x == y:
                    continue
                a, ea = items[x]
                b, eb = items[y]
                if ea != 1 or eb != 1:
                    continue
                r = pair_rule(a, b, count)
                if r is not None:
                    rest = [items[k] for k in range(len(items)) if k not in (x, y)]
                    new, ren = r
                    if ren:
                        rest = [(remap_atom(q, lambda i: ren.get(i, i)), e) for q, e in rest]
                        # A delta on two labels with nothing else left stays a delta.
                    items = rest + [(n, Fraction(1)) for n in new]
                    done = changed = True
                    break
            if done:
                break
    return items


def mat_idx(a):
    if a[0] == "s" and len(a[2]) == 2:
        return a[2]
    if a[0] == "f" and len(a[3]) == 2:
        return a[3]
    return None


def plain(a):
    """Matrix atom with its axes set to (-2, -1)."""
    i = mat_idx(a)
    if a[0] == "s":
        return ("s", a[1], (-2, -1), a[3])
    return ("f", a[1], a[2], (-2, -1))


def pair_rule(a, b, count):
    if a[0] == "s" and a[1] == "delta":
        for p in (0, 1):
            i, j = a[2][p], a[2][1 - p]
            if isinstance(i, tuple) and i in atom_idx(b) and count.get(i, 0) == 2 and i != j:
                return [remap_atom(b, lambda k: j if k == i else k)], None
        return None
    if not (a[0] == "f" and len(a[3]) == 2):
        return None
    ib = mat_idx(b)
    if ib is None:
        return None
    ia = a[3]
    arg = a[2][0]
    if a[1] == "inv":
        pb = plain(b)
        if from_mono(1, [(pb, Fraction(1))]) == arg or (b[0] == "s" and "S" in b[3] and from_mono(1, [(remap_atom(pb, lambda i: {-1: -2, -2: -1}[i]), Fraction(1))]) == arg):
            for p in (0, 1):
                for q in (0, 1):
                    if isinstance(ia[p], tuple) and ia[p] == ib[q] and count.get(ia[p]) == 2:
                        i, j = ia[1 - p], ib[1 - q]
                        if i == j:
                            return None
                        if isinstance(j, tuple) and count.get(j) == 2:
                            return [], {j: i}
                        if isinstance(i, tuple) and count.get(i) == 2:
                            return [], {i: j}
                        return [("s", "delta", tuple(sorted((i, j), key=_key)), "S")], None
    if a[1] == "chol" and b[0] == "f" and b[1] == "chol" and a[2] == b[2]:
        if isinstance(ia[1], tuple) and ia[1] == ib[1] and count.get(ia[1]) == 2 and len(arg.t) == 1:
            (m, c), = arg.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and mat_idx(m[0][0]):
                base = m[0][0]
                return [remap_atom(base, lambda i: {-2: ia[0], -1: ib[0]}.get(i, i))], None
    if a[1] == "cinv" and b[0] == "f" and b[1] == "cinv" and a[2] == b[2]:
        if isinstance(ia[0], tuple) and ia[0] == ib[0] and count.get(ia[0]) == 2:
            return [("f", "inv", a[2], tuple(sorted((ia[1], ib[1]), key=_key)))], None
    if a[1] == "cinv" and b[0] == "f" and b[1] == "chol" and a[2] == b[2]:
        if isinstance(ia[1], tuple) and ia[1] == ib[0] and count.get(ia[1]) == 2:
            i, j = ia[0], ib[1]
            if i != j and isinstance(j, tuple) and count.get(j) == 2:
                return [], {j: i}
            if i != j and isinstance(i, tuple) and count.get(i) == 2:
                return [], {i: j}
    return None


DIMS = {}  # Name of a base atom -> sizes of its axes (normal forms), for `nfeval`.


_memo = {}


def canon(items):
    """Canonicalise a product. Returns a list of (coefficient, monomial)."""
    try:
        k = (NESTED[0] > 0, tuple(items))
        r = _memo.get(k)
    except TypeError:
        return _canon(items)
    if r is None:
        if len(_memo) > 200000:
            _memo.clear()
        r = _memo[k] = _canon(items)
    return list(r)


def _canon(items):
    if not NESTED[0] and any((a[0] == "f" and a[3]) or a[1] == "delta" for a, _ in items):
        items = simplify_pairs(items)
    coef = Fraction(1)
    d = {}
    exparg = None
    for a, e in items:
        e = Fraction(e)
        if e == 0:
            continue
        if a[0] == "f" and a[1] == "exp":
            x = a[2][0].scale(e)
            exparg = x if exparg is None else exparg + x
            continue
        if a[0] == "n":
            d[a] = d.get(a, 0) + e
            continue
        d[a] = d.get(a, 0) + e
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a[0] == "n":
            k = e.numerator // e.denominator
            coef *= Fraction(a[1]) ** k
            e = e - k
            if e == 0:
                continue
        out.append((a, e))
    if exparg is not None and exparg.t:
        out.append((("f", "exp", (exparg,), ()), Fraction(1)))
    # Positive integer powers of sums must be expanded.
    for n, (a, e) in enumerate(out):
        if a[0] == "p" and e.denominator == 1 and 0 < e <= 6 and not mono_idx(((a, 1),), True) and not has_bound(a[1]):
            rest = NF({tuple(sorted(out[:n] + out[n + 1 :], key=_key)): coef})
            x = rest
            for _ in range(int(e)):
                x = x * a[1]
            return [(c, m) for m, c in x.t.items()]
    ds = set()
    for a, _ in out:
        for i in atom_idx(a):
            if isinstance(i, tuple):
                ds.add(i)
    out.sort(key=_key)
    if ds and not NESTED[0]:
        ds = sorted(ds)
        n = len(ds)
        best = None
        if n > 16:
            raise TooBig
        targets = [("d", k) for k in range(n)]
        occ = []  # (colour of the atom, positions of labels, fixed labels, symmetric)
        for a, e in out:
            if a[0] == "s":
                ids, nm, sy = a[2], a[1] + a[3], "S" in a[3]
            elif a[0] == "f" and a[3]:
                ids, nm, sy = a[3], a[1] + repr(a[2]), a[1] == "inv"
            else:
                # Labels occur within: identify occurrences by the form of the atom in which only this label is marked.
                for x in sorted(i for i in atom_idx(a) if isinstance(i, tuple)):
                    mk = remap_atom(a, lambda i: ("m", 0) if i == x else ("o", 0) if isinstance(i, tuple) else i)
                    others = tuple(sorted(i for i in atom_idx(a) if isinstance(i, tuple) and i != x))
                    occ.append(("w" + repr(mk) + str(e), (x,), others))
                continue
            if not any(isinstance(i, tuple) for i in ids):
                continue
            occ.append((nm + "^" + str(e), tuple(ids), len(ids) - 2 if sy else None))

        def refine(col):
            while True:
                sig = {x: [] for x in ds}
                for nm, ids, extra in occ:
                    if nm[0] == "w" and isinstance(extra, tuple):
                        sig[ids[0]].append((nm, tuple(sorted(col[o] for o in extra))))
                        continue
                    c = [("c", col[i]) if isinstance(i, tuple) else ("f", i) for i in ids]
                    for k, i in enumerate(ids):
                        if isinstance(i, tuple):
                            if extra is not None:
                                rest = (tuple(c[:extra]), tuple(sorted(c[extra:], key=repr)))
                                pos = "x" if k >= extra else k
                            else:
                                rest, pos = tuple(c), k
                            sig[i].append((nm, str(pos), repr(rest)))
                key = {x: repr((col[x], sorted(map(repr, sig[x])))) for x in ds}
                rank = {r: k for k, r in enumerate(sorted(set(key.values())))}
                new = {x: rank[key[x]] for x in ds}
                if len(rank) == len(set(col.values())):
                    return new
                col = new

        leaves = [0]

        def search(col):
            nonlocal best
            groups = {}
            for x in ds:
                groups.setdefault(col[x], []).append(x)
            multi = [g for g in sorted(groups) if len(groups[g]) > 1]
            if not multi:
                leaves[0] += 1
                ren = {x: targets[k] for k, x in enumerate(sorted(ds, key=lambda x: col[x]))}
                cand = sorted(((remap_atom(a, lambda i: ren.get(i, i)), e) for a, e in out), key=_key)
                r = repr(cand)
                if best is None or r < best[0]:
                    best = (r, cand)
                return
            g = multi[0]
            for x in groups[g]:
                if leaves[0] >= 48 and best is not None:
                    return
                c2 = {y: 2 * c for y, c in col.items()}
                c2[x] -= 1
                search(refine(c2))

        search(refine({x: 0 for x in ds}))
        out = best[1]
        # Merging equal atoms after renaming.
        dd = {}
        for a, e in out:
            dd[a] = dd.get(a, 0) + e
        out = sorted(((a, e) for a, e in dd.items() if e), key=_key)
    return [(coef, tuple(out))]


def from_mono(c, items):
    r = NF()
    for c2, m in canon(items):
        if c * c2:
            r = r + NF({m: Fraction(c) * c2})
    return r


def const(c):
    c = Fraction(c)
    return NF({(): c}) if c else NF()


def sym(name, rank=0, flags=""):
    idx = tuple(range(-rank, 0))
    return from_mono(1, [(("s", name, idx, flags), Fraction(1))])


def fn(name, *args):
    """Elementwise function of normal forms, with algebraic normalisation."""
    args = tuple(bind(a) for a in args)
    if name == "exp":
        if not args[0].t or (any(a[0] == "p" for m in args[0].t for a, _ in m) and args[0].is_zero()):
            return const(1)
        return from_mono(1, [(("f", "exp", (args[0],), ()), Fraction(1))])
    if name == "log":
        x = args[0]
        if x.const() == 1:
            return NF()
        if len(x.t) == 1 and not x.dummies():
            (m, c), = x.t.items()
            if c > 0 and all(positive(a) and not (a[0] == "f" and has_bound(a[2][0])) for a, _ in m):
                r = NF()
                for n, s in ((c.numerator, 1), (c.denominator, -1)):
                    for p, k in prime_factors(n).items():
                        r = r + from_mono(k * s, [(("f", "log", (const(p),), ()), Fraction(1))])
                for a, e in m:
                    if a[0] == "f" and a[1] == "exp":
                        r = r + a[2][0].scale(e)
                    else:
                        y = const(a[1]) if a[0] == "n" else a[1] if a[0] == "p" else from_mono(1, [(a, Fraction(1))])
                        r = r + from_mono(e, [(("f", "log", (y,), ()), Fraction(1))])
                return r
    if name in ("abs", "cos"):
        x = args[0]
        c = x.const()
        if c is not None and name == "abs":
            return const(abs(c))
        if name == "cos" and c == 0:
            return const(1)
        if x.t and x.key()[0][1] < 0:
            x = -x
        if name == "abs" and len(x.t) == 1:
            (m, c), = x.t.items()
            if all(positive(a) or (e.denominator == 1 and e.numerator % 2 == 0) for a, e in m):
                return x
        return from_mono(1, [(("f", name, (x,), ()), Fraction(1))])
    if name in ("sin", "erf", "sign"):
        x = args[0]
        if not x.t:
            return NF()
        if x.key()[0][1] < 0:
            return -fn(name, -x)
        if name == "sign" and len(x.t) == 1 and all(positive(a) for a, _ in next(iter(x.t))):
            return const(1)
        return from_mono(1, [(("f", name, (x,), ()), Fraction(1))])
    if name in ("minimum", "maximum"):
        args = tuple(sorted(set(args), key=_key))
        if len(args) == 1:
            return args[0]
        cs = [a.const() for a in args]
        if all(c is not None for c in cs):
            return const(min(cs) if name == "minimum" else max(cs))
    return from_mono(1, [(("f", name, tuple(args), ()), Fraction(1))])


def mat_fn(name, arg):
    """Opaque matrix-valued function of a matrix (a normal form with axes -2 and -1)."""
    return from_mono(1, [(("f", name, (arg,), (-2, -1)), Fraction(1))])


def scalar_fn(name, arg):
    """Opaque scalar function of a matrix; the axes of the argument are bound."""
    return from_mono(1, [(("s", (name, arg), (), ""), Fraction(1))])


def held_fixed(n):
    """Does a symbol stand for something that does not depend on what is differentiated to?"""
    return not isinstance(n, str) or n == "delta" or n.startswith(("e:", "#", "sg:", "?")) or n in held.dims or n in held.data


def held_atom(a):
    if a[0] == "s":
        n = a[1]
        if held_fixed(n):
            return a
        if n in DIMS:
            DIMS["sg:" + n] = DIMS[n]
        return (a[0], "sg:" + n) + tuple(a[2:])
    if a[0] == "f":
        return (a[0], a[1], tuple(held(x) if isinstance(x, NF) else x for x in a[2]), a[3])
    if a[0] == "p":
        return ("p", held(a[1]))
    return a


def held(x):
    """The same expression at another point, at which it is constant in differentiation."""
    y = held.memo.get(x)
    if y is None:
        y = NF()
        for m, c in x.t.items():
            for c2, m2 in canon([(held_atom(a), e) for a, e in m]):
                y = y + NF({m2: c * c2})
        held.memo[x] = y
    return y


held.dims = set()
held.data = {"pi", "t", "y", "t2", "y2"}  # Names of constants and data.
held.memo = {}
