"""Normal forms of matrix expressions with symbolic sizes.

A matrix is a linear combination of noncommutative monomials.  A monomial is a tuple of factors; a
coefficient is a polynomial in scalar atoms.  The rewriting rules below are the axioms of matrix algebra that
the verifier uses (listed in DESIGN.md); what remains after normalisation is decided by z3.

Dimensions are stored inside factors as hashable keys of `SymInt`s.
"""
from fractions import Fraction
from functools import lru_cache

from .core import SymInt, Unsupported, ctx, ile, isame

ONE = SymInt.const(1).key


def I(key):
    return SymInt(dict(key))


def dkey(x):
    return SymInt.of(x).key


def dsame(a, b):
    return a == b or isame(I(a), I(b))


def dzero(k):
    return k == ()


# ---------------------------------------------------------------------------------------------
# Numbers.


def snap(x):
    """Machine arithmetic is treated as real arithmetic: constants are snapped to nearby rationals."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    f = float(x)
    if f == 0:
        return Fraction(0)
    if f != f or f in (float("inf"), float("-inf")):
        raise Unsupported(f"non-finite constant {f}")
    r = Fraction(f).limit_denominator(1000)
    if abs(float(r) - f) <= 1e-13 * abs(f):
        return r
    return Fraction(f"{f:.10e}")


# ---------------------------------------------------------------------------------------------
# Scalar polynomials: dict from sorted tuple of (atom, exponent) to Fraction.


def _akey(a):
    return repr(a)


class SP:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    @staticmethod
    def const(c):
        c = snap(c)
        return SP({(): c} if c else {})

    @staticmethod
    def atom(a, e=1):
        return SP({((a, e),): Fraction(1)})

    @staticmethod
    def dim(key):
        """A dimension as a scalar."""
        t = SP({})
        for m, k in key:
            s = SP.const(k)
            for v in m:
                s = s * SP.atom(("dim", v))
            t = t + s
        return t

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items(), key=repr))
        return self._k

    @property
    def zero(self):
        return not self.t

    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    @property
    def value(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
            if not t[m]:
                del t[m]
        return SP(t)

    def __neg__(self):
        return SP({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        extra = None
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                e = dict(m)
                reduce = False
                for a, k in m2:
                    if a in e:
                        e[a] += k
                        reduce = reduce or a[0] == "sqrt"
                    else:
                        e[a] = k
                    if a[0] == "sp" and e[a] > 0:
                        reduce = True
                f = S1
                if reduce:
                    for a in list(e):
                        if a[0] == "sqrt" and abs(e[a]) >= 2:
                            # The square of a square root.
                            h = abs(e[a]) // 2
                            b = SP(dict(a[1]))
                            b = b if e[a] > 0 else b.inv()
                            e[a] -= 2 * h if e[a] > 0 else -2 * h
                            for _ in range(h):
                                f = f * b
                        elif a[0] == "sp" and e[a] > 0:
                            b = SP(dict(a[1]))
                            for _ in range(e.pop(a)):
                                f = f * b
                mm = tuple(sorted(((a, k) for a, k in e.items() if k), key=_akey))
                if reduce:
                    p = SP({mm: c * c2}) * f
                    extra = p if extra is None else extra + p
                    continue
                t[mm] = t.get(mm, 0) + c * c2
                if not t[mm]:
                    del t[mm]
        return SP(t) if extra is None else SP(t) + extra

    def cleared(self):
        """Multiply with all denominators that are sums: zero exactly if the original is zero."""
        s = self._split_logs()
        for _ in range(50):
            dens = [(a, k) for m in s.t for a, k in m if a[0] == "sp" and k < 0]
            if not dens:
                return s
            a = dens[0][0]
            k = max(-k for b, k in dens if b == a)
            den = SP(dict(a[1]))
            r = S0
            for m, c in s.t.items():
                e = dict(m)
                j = k + e.pop(a, 0)
                q = SP({tuple(sorted(e.items(), key=_akey)): c})
                for _ in range(j):
                    q = q * den
                r = r + q
            s = r
        return s

    def _split_logs(self):
        """Logarithms of products of sums that occur as the sums of the logarithms."""
        s = self
        for _ in range(20):
            logs = {a for m in s.t for a, _ in m if a[0] == "log" and a[1][0] == "sp"}
            logs = sorted(logs, key=lambda a: (len(a[1][1]), repr(a)), reverse=True)
            for a, b in ((a, b) for i, a in enumerate(logs) for b in logs[i + 1 :]):
                den = SP(dict(b[1][1]))
                q = _divide(SP(dict(a[1][1])), den)
                if q is not None:
                    v = slog(q) + SP.atom(b)
                    break
            else:
                return s
            r = S0
            for m, c in s.t.items():
                e = dict(m)
                k = e.pop(a, 0)
                p = SP({tuple(sorted(e.items(), key=_akey)): c})
                for _ in range(k):
                    p = p * v
                r = r + p
            s = r
        return s

    def fraction(self):
        """Content, primitive numerator, and denominators: a monomial `c`, a sum `p` (or one), and powers of sums
        `ds` such that this is `c p / ds`."""
        s, ds = self, {}
        for _ in range(100):
            dens = [(a, k) for m in s.t for a, k in m if a[0] == "sp" and k < 0]
            if not dens:
                break
            a = dens[0][0]
            k = max(-k for b, k in dens if b == a)
            den = SP(dict(a[1]))
            ds[a] = ds.get(a, 0) + k
            r = S0
            for m, c in s.t.items():
                e = dict(m)
                j = k + e.pop(a, 0)
                q = SP({tuple(sorted(e.items(), key=_akey)): c})
                for _ in range(j):
                    q = q * den
                r = r + q
            s = r
        else:
            raise Unsupported("nested denominators")
        if s.zero:
            return S0, S1, {}
        # Common factors.
        for a in list(ds):
            den = SP(dict(a[1]))
            while a in ds:
                q = _divide(s, den)
                if q is None:
                    break
                s = q
                ds[a] -= 1
                if not ds[a]:
                    del ds[a]
        if len(s.t) == 1:
            return s, S1, ds
        # Common monomial.
        ms = [dict(m) for m in s.t]
        e = {}
        for a in {a for m in ms for a in m}:
            k = min(m.get(a, 0) for m in ms)
            if k:
                e[a] = k
        lead = sorted(((tuple(sorted(((a, k - e.get(a, 0)) for a, k in {**{b: 0 for b in e}, **dict(m)}.items()
                                     if k != e.get(a, 0)), key=_akey)), c) for m, c in s.t.items()), key=repr)
        c = lead[0][1]
        content = SP({tuple(sorted(e.items(), key=_akey)): c})
        return content, SP({m: k / c for m, k in lead}), ds

    def inv(self):
        if self.zero:
            raise ZeroDivisionError("division by zero")
        c, p, ds = self.fraction()
        ((m, k),) = c.t.items()
        r = SP({tuple((a, -j) for a, j in m): 1 / k})
        if p.key != S1.key:
            r = r * SP({((("sp", p.key), -1),): Fraction(1)})
        for a, j in ds.items():
            for _ in range(j):
                r = r * SP(dict(a[1]))
        return r

    def canonical(self):
        """Reduced to one fraction."""
        if not any(a[0] == "sp" for m in self.t for a, _ in m):
            return self
        c, p, ds = self.fraction()
        r = c * p
        for a, j in ds.items():
            r = SP({tuple(sorted(((b, i) for b, i in {**dict(m), a: -j}.items()), key=_akey)): k for m, k in r.t.items()})
        return r

    def __repr__(self):
        if not self.t:
            return "0"
        return " + ".join(
            f"{c}" + "".join(f"*{show_scalar(a)}" + (f"^{k}" if k != 1 else "") for a, k in m)
            for m, c in self.key
        )


def _divide(s, d):
    """The exact quotient of two sums without denominators that are sums, or nothing."""
    q = S0

    def normal(p):
        # Clear negative powers.
        low = {}
        for m in p.t:
            for a, k in m:
                low[a] = min(low.get(a, 0), k)
        e = tuple(sorted(((a, -k) for a, k in low.items() if k < 0), key=_akey))
        return SP({e: Fraction(1)})

    f, g = normal(s), normal(d)
    s, d = s * f, d * g
    atoms = sorted({a for p in (s, d) for m in p.t for a, _ in m}, key=_akey)

    def order(m):
        e = dict(m)
        return tuple(e.get(a, 0) for a in atoms)

    lead = max(d.t, key=order)
    for _ in range(500):
        if s.zero:
            return q * f.inv() * g
        m = max(s.t, key=order)
        e = dict(m)
        for a, k in lead:
            e[a] = e.get(a, 0) - k
            if e[a] < 0:
                return None
        t = SP({tuple(sorted(((a, k) for a, k in e.items() if k), key=_akey)): s.t[m] / d.t[lead]})
        q, s = q + t, s - t * d
    return None


def show_scalar(a):
    if a[0] == "s":
        return a[1]
    if a[0] == "dim":
        return a[1]
    if a[0] == "tr":
        return f"tr({show_mono(a[1])})"
    if a[0] == "logdet":
        return f"logdet[{show_key(a[1])}]"
    if a[0] == "log":
        return f"log({show_scalar(a[1])})"
    if a[0] == "sp":
        return f"({SP(dict(a[1]))})"
    if a[0] == "sqrt":
        return f"sqrt({SP(dict(a[1]))})"
    if a[0] == "k":
        return f"{a[1]}({show_key(a[2])}; {show_key(a[3])})"
    if a[0] == "el":
        return f"{a[1]}({', '.join(show_key(k) if k and isinstance(k[0], tuple) and len(k) == 3 else str(k) for k in a[2])})"
    return str(a)


S0, S1 = SP({}), SP({(): Fraction(1)})

# ---------------------------------------------------------------------------------------------
# Factors.  Every factor is a tuple that starts with its kind.
#
#   ("at", name, rows, cols, sym, T)        arbitrary matrix
#   ("inv", polykey, n, sym, T)             inverse
#   ("ch", polykey, n, T, INV)              Cholesky factor: L L' = P
#   ("P", polykey, n)                       P itself, folded (only produced from L L')
#   ("rt", polykey, n)                      symmetric square root
#   ("D", mono)                             diagonal matrix of a column
#   ("one", n, T)                           column of ones
#   ("E", off, n, N, T)                     embedding of a segment: N x n
#   ("S", mask, pos0, pos1, T)              selection by a mask of the segment [pos0, pos1)
#   ("R", dims, d, d', T)                   selection of columns: x R, d x d'
#   ("had", (mono, ...), rows, cols)        Hadamard product
#   ("hc", (mono, ...), n, T)               elementwise product of columns
#   ("dc", mono, n, T)                      column with the diagonal of a square matrix
#   ("el", fname, args, n, m, T)            elementwise function of matrices (args: poly keys)
#   ("K", k, xk, yk, n, m, T, sym)          kernel matrix


def mask_count(mask, lo, hi):
    """Number of selected elements of `mask` in [lo, hi): difference of prefix counts."""
    return (_prefix(mask, hi) - _prefix(mask, lo)).key


def _prefix(mask, pos):
    if dzero(pos):
        return SymInt.const(0)
    if mask.startswith("!"):
        return I(pos) - _prefix(mask[1:], pos)
    c = ctx()
    table = getattr(c, "mask_prefix", None)
    if table is None:
        return SymInt.var(f"cnt{{{mask}}}[{I(pos)}]")
    if (mask, pos) not in table:
        # A new position: the count lies between the counts at the positions around it.
        n, p = SymInt.var(f"cnt{{{mask}}}[{I(pos)}]"), I(pos)
        facts = [n.z3() >= 0, n.z3() <= p.z3()]
        for (name, other), count in table.items():
            if name == mask:
                o, k = I(other), SymInt.of(count)
                if ile(o, p):
                    facts += [k.z3() <= n.z3(), n.z3() - k.z3() <= (p - o).z3()]
                elif ile(p, o):
                    facts += [n.z3() <= k.z3(), k.z3() - n.z3() <= (o - p).z3()]
                else:
                    up = z3.And(k.z3() <= n.z3(), n.z3() - k.z3() <= (p - o).z3())
                    down = z3.And(n.z3() <= k.z3(), k.z3() - n.z3() <= (o - p).z3())
                    facts.append(z3.If(o.z3() <= p.z3(), up, down))
        table[mask, pos] = n
        for fact in facts:
            c.assume(fact)
    return table[mask, pos]


def rows(f):
    k = f[0]
    if k == "at":
        return f[3] if f[5] else f[2]
    if k in ("inv", "ch", "P", "rt"):
        return f[2]
    if k == "D":
        return rows(f[1][0]) if f[1] else ONE
    if k == "one":
        return ONE if f[2] else f[1]
    if k == "E":
        return f[2] if f[4] else f[3]
    if k == "S":
        if f[4]:
            return (I(f[3]) - I(f[2])).key
        return mask_count(f[1], f[2], f[3])
    if k == "R":
        return f[3] if f[4] else f[2]
    if k == "had":
        return f[2]
    if k in ("hc", "dc"):
        return ONE if f[3] else f[2]
    if k == "el":
        return f[4] if f[5] else f[3]
    if k == "K":
        return f[5] if f[6] else f[4]
    raise Unsupported(f"factor {f}")


def cols(f):
    if f[0] in ("inv", "ch", "P", "rt", "D"):
        return rows(f)
    return rows(transpose(f))


def transpose(f):
    k = f[0]
    if k == "at":
        return f if f[4] else f[:5] + (not f[5],)
    if k == "inv":
        return f if f[3] else f[:4] + (not f[4],)
    if k == "ch":
        return f[:3] + (not f[3], f[4])
    if k in ("P", "rt", "D"):
        return f
    if k == "one":
        return ("one", f[1], not f[2])
    if k in ("E", "S", "R"):
        return f[:4] + (not f[4],)
    if k == "had":
        return ("had", tuple(sorted((mono_T(m) for m in f[1]), key=repr)), f[3], f[2])
    if k in ("hc", "dc"):
        return f[:3] + (not f[3],)
    if k == "el":
        return f[:5] + (not f[5],)
    if k == "K":
        return f if f[7] else f[:6] + (not f[6], f[7])
    raise Unsupported(f"factor {f}")


def mono_T(m):
    return tuple(transpose(f) for f in reversed(m))


# ---------------------------------------------------------------------------------------------
# Polynomials.


class Poly:
    __slots__ = ("n", "m", "t", "_k")

    def __init__(self, n, m, t):
        self.n, self.m, self.t, self._k = n, m, t, None

    @staticmethod
    def zeros(n, m):
        return Poly(dkey(n) if not isinstance(n, tuple) else n, dkey(m) if not isinstance(m, tuple) else m, {})

    @staticmethod
    def eye(n):
        n = dkey(n) if not isinstance(n, tuple) else n
        return Poly(n, n, {(): S1})

    @staticmethod
    def scalar(s):
        return Poly(ONE, ONE, {(): s} if not s.zero else {})

    @staticmethod
    def factor(f):
        return product([f], rows(f), cols(f))

    @staticmethod
    def const(c, n, m):
        """Constant matrix."""
        n = dkey(n) if not isinstance(n, tuple) else n
        m = dkey(m) if not isinstance(m, tuple) else m
        p = product([("one", n, False), ("one", m, True)], n, m)
        return p.scale(c)

    @property
    def key(self):
        if self._k is None:
            self._k = (self.n, self.m, tuple(sorted(((m, c.key) for m, c in self.t.items()), key=repr)))
        return self._k

    @property
    def zero(self):
        return not self.t

    def as_scalar(self):
        if not (self.n == ONE and self.m == ONE):
            raise Unsupported("not a scalar")
        if not self.t:
            return S0
        if list(self.t) != [()]:
            raise Unsupported(f"scalar with residual factors {self}")
        return self.t[()]

    def __add__(self, o):
        if not (dsame(self.n, o.n) and dsame(self.m, o.m)):
            raise ValueError(f"shapes do not match: {self.shape} and {o.shape}")
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, S0) + c
            if s.zero:
                t.pop(m, None)
            else:
                t[m] = s
        return Poly(self.n, self.m, t)

    @property
    def shape(self):
        return (I(self.n), I(self.m))

    def scale(self, s):
        if not isinstance(s, SP):
            s = SP.const(s)
        t = {}
        for m, c in self.t.items():
            x = c * s
            if not x.zero:
                t[m] = x
        return Poly(self.n, self.m, t)

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def cleared(self):
        """Multiply every coefficient with its denominators."""
        t = {}
        for m, c in self.t.items():
            c = c.cleared()
            if not c.zero:
                t[m] = c
        return Poly(self.n, self.m, t)

    def __matmul__(self, o):
        if not dsame(self.m, o.n):
            raise ValueError(f"shapes do not match in product: {self.shape} and {o.shape}")
        res = Poly(self.n, o.m, {})
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                res = res + product(list(m) + list(m2), self.n, o.m).scale(c * c2)
        return res

    @property
    def T(self):
        res = Poly(self.m, self.n, {})
        for m, c in self.t.items():
            # The transposition of a normal form need not be a normal form.
            res = res + product(list(mono_T(m)), self.m, self.n).scale(c)
        return res

    def __repr__(self):
        if not self.t:
            return "0"
        return " + ".join(f"({c})·{show_mono(m)}" for m, c in sorted(self.t.items(), key=repr))


def show_mono(m):
    return "·".join(map(show_factor, m)) if m else "I"


def show_key(k):
    return " + ".join(f"({SP(dict(c))})·{show_mono(m)}" for m, c in k[2]) if k[2] else "0"


def show_factor(f):
    k = f[0]
    if k == "at":
        return f[1] + ("'" if f[5] else "")
    if k == "inv":
        return f"inv[{show_key(f[1])}]" + ("'" if f[4] else "")
    if k == "ch":
        return f"chol[{show_key(f[1])}]" + ("'" if f[3] else "") + ("^-1" if f[4] else "")
    if k == "P":
        return f"[{show_key(f[1])}]"
    if k == "rt":
        return f"root[{show_key(f[1])}]"
    if k == "D":
        return f"diag({show_mono(f[1])})"
    if k == "one":
        return "1" + ("'" if f[2] else "")
    if k == "E":
        return f"E[{I(f[1])}:+{I(f[2])} of {I(f[3])}]" + ("'" if f[4] else "")
    if k == "S":
        return f"S[{f[1]}@{I(f[2])}:{I(f[3])}]" + ("'" if f[4] else "")
    if k == "R":
        return f"R[{f[1]}]" + ("'" if f[4] else "")
    if k == "had":
        return "(" + " ∘ ".join(map(show_mono, f[1])) + ")"
    if k == "hc":
        return "(" + " * ".join(map(show_mono, f[1])) + ")" + ("'" if f[3] else "")
    if k == "dc":
        return f"diagof({show_mono(f[1])})" + ("'" if f[3] else "")
    if k == "el":
        return f"{f[1]}(" + ", ".join(map(show_key, f[2])) + ")" + ("'" if f[5] else "")
    if k == "K":
        return f"{f[1]}({show_key(f[2])}; {show_key(f[3])})" + ("'" if f[6] else "")
    return str(f)


def poly_of_key(k):
    return Poly(k[0], k[1], {m: SP(dict(c)) for m, c in k[2]})


# ---------------------------------------------------------------------------------------------
# Products of factors.


def product(fs, n, m):
    """Normalise a product of factors to a polynomial."""
    fs = list(fs)
    if dzero(n) or dzero(m) or any(dzero(cols(f)) or (f[0] == "S" and dzero(rows(f))) for f in fs):
        return Poly(n, m, {})
    # Rewrite adjacent factors until nothing changes.
    work = [(fs, S1)]
    res = Poly(n, m, {})
    steps = 0
    while work:
        fs, c = work.pop()
        steps += 1
        if steps > 20000:
            raise Unsupported("normalisation does not terminate")
        out = _step(fs)
        if out is None:
            if any(f[0] in ("E", "S") and (dzero(rows(f)) or dzero(cols(f))) for f in fs):
                continue
            f2, s = _segments(fs)
            c = c * s
            t = dict(res.t)
            x = t.get(f2, S0) + c
            if x.zero:
                t.pop(f2, None)
            else:
                t[f2] = x
            res = Poly(n, m, t)
        else:
            for f2, c2 in out:
                cc = c * c2
                if not cc.zero:
                    work.append((f2, cc))
    return res


def _expand(fs, i, j, p):
    """Replace `fs[i:j]` by polynomial `p`."""
    return [(fs[:i] + list(m) + fs[j:], c) for m, c in p.t.items()]


def _segments(fs):
    """Extract scalar segments and order the segments of a product with inner dimension one."""
    segs, cur = [], []
    for f in fs:
        cur.append(f)
        if cols(f) == ONE:
            segs.append(cur)
            cur = []
    if cur:
        segs.append(cur)
    out, s = [], S1
    for g in segs:
        if rows(g[0]) == ONE and cols(g[-1]) == ONE:
            s = s * trace_mono(tuple(g))
        else:
            out.extend(g)
    return tuple(out), s


def _step(fs):
    """Apply one rewriting rule.

    Returns:
        list or None: List of products and coefficients, or `None` if no rule applies.
    """
    for i, f in enumerate(fs):
        r = _single(f)
        if r is not None:
            return _expand(fs, i, i + 1, r)
    for i in range(len(fs) - 1):
        r = _pair(fs[i], fs[i + 1])
        if r is not None:
            return [(fs[:i] + list(m) + fs[i + 2 :], c) for m, c in r]
    # Weighted sums over the rows or columns of an elementwise product: u' (X * Y) = diag(X' D(u) Y)'.
    for i, f in enumerate(fs):
        if f[0] == "had" and len(f[1]) == 2:
            x, y = f[1]
            j = i
            while j >= 0 and rows(fs[j]) != ONE:
                j -= 1
            if 0 <= j < i:
                u = diagm(product(fs[j:i], ONE, f[2]).T)
                p = dcol(Poly(f[2], f[3], {x: S1}).T @ u @ Poly(f[2], f[3], {y: S1})).T
                return _expand(fs, j, i + 1, p)
            j = i
            while j < len(fs) and cols(fs[j]) != ONE:
                j += 1
            if i < j < len(fs):
                u = diagm(product(fs[i + 1 : j + 1], f[3], ONE))
                p = dcol(Poly(f[2], f[3], {x: S1}) @ u @ Poly(f[2], f[3], {y: S1}).T)
                return _expand(fs, i, j + 1, p)
    # Three adjacent factors: nothing so far.  Diagonal matrices applied to columns or rows.
    for i, f in enumerate(fs):
        if f[0] == "D":
            # To the right: does the segment from here end in a column?
            j = i
            while j < len(fs) and cols(fs[j]) != ONE:
                j += 1
            if j < len(fs) and j > i:
                n = rows(f)
                p = hc_poly([Poly(n, ONE, {f[1]: S1}), product(fs[i + 1 : j + 1], n, ONE)])
                return _expand(fs, i, j + 1, p)
            j = i
            while j >= 0 and rows(fs[j]) != ONE:
                j -= 1
            if j >= 0 and j < i:
                n = rows(f)
                p = hc_poly([Poly(n, ONE, {f[1]: S1}), product(list(mono_T(tuple(fs[j:i]))), n, ONE)])
                return _expand(fs, j, i + 1, Poly(p.m, p.n, {mono_T(m): c for m, c in p.t.items()}))
    return None


def _single(f):
    k = f[0]
    if k == "E" and dzero(f[1]) and dsame(f[2], f[3]):
        return Poly.eye(f[3])
    if k == "one" and f[1] == ONE:
        return Poly.eye(ONE)
    if k == "D":
        m = f[1]
        if not m:
            return Poly.eye(ONE)
        if m == (("one", rows(m[0]), False),):
            return Poly.eye(rows(m[0]))
        if m[0][0] == "E" and not m[0][4]:
            # D(E v) = E D(v) E'
            e = m[0]
            rest = m[1:]
            return Poly(e[3], e[3], {(e, ("D", rest), transpose(e)): S1})
    if k == "S" and mask_count(f[1], f[2], f[3]) == (I(f[3]) - I(f[2])).key:
        return Poly.eye((I(f[3]) - I(f[2])).key)
    return None


def _pair(f, g):
    """Rewrite a pair of adjacent factors: list of (factors, coefficient) or `None`."""
    a, b = f[0], g[0]
    # Embeddings.
    if a == "E" and b == "E":
        if f[4] and not g[4]:
            o1, n1, o2, n2 = f[1], f[2], g[1], g[2]
            if dsame(o1, o2) and dsame(n1, n2):
                return [((), S1)]
            e1, e2 = (I(o1) + I(n1)), (I(o2) + I(n2))
            if ile(e1, I(o2)) or ile(e2, I(o1)):
                return []
            if ile(I(o2), I(o1)) and ile(e1, e2):
                return [((("E", (I(o1) - I(o2)).key, n1, n2, True),), S1)]
            if ile(I(o1), I(o2)) and ile(e2, e1):
                return [((("E", (I(o2) - I(o1)).key, n2, n1, False),), S1)]
            raise Unsupported("partially overlapping slices")
        if not f[4] and not g[4]:
            return [((("E", (I(f[1]) + I(g[1])).key, g[2], f[3], False),), S1)]
        if f[4] and g[4]:
            return [((("E", (I(f[1]) + I(g[1])).key, f[2], g[3], True),), S1)]
    # Selections.
    if a == "S" and b == "S" and not f[4] and g[4] and f[1:4] == g[1:4]:
        return [((), S1)]
    if a == "S" and not f[4] and b == "E" and not g[4]:
        # S E = E' S'
        lo = (I(f[2]) + I(g[1])).key
        hi = (I(lo) + I(g[2])).key
        off = mask_count(f[1], f[2], lo)
        num = mask_count(f[1], lo, hi)
        tot = mask_count(f[1], f[2], f[3])
        return [((("E", off, num, tot, False), ("S", f[1], lo, hi, False)), S1)]
    if a == "E" and f[4] and b == "S" and g[4]:
        return [(mono_T(m), c) for m, c in _pair(transpose(g), transpose(f))]
    # Ones.
    if b == "one" and not g[2]:
        if a == "S" and not f[4]:
            return [((("one", rows(f), False),), S1)]
        if a == "E" and f[4]:
            return [((("one", f[2], False),), S1)]
        if a == "R" and f[4]:
            return [((("one", f[3], False),), S1)]
    if a == "one" and f[2]:
        if b == "S" and g[4]:
            return [((("one", cols(g), True),), S1)]
        if b == "E" and not g[4]:
            return [((("one", g[2], True),), S1)]
        if b == "R" and not g[4]:
            return [((("one", g[3], True),), S1)]
    # Diagonal matrices.
    if a == "D" and b == "D":
        p = hc([f[1], g[1]])
        return [((("D", m),), c) for m, c in p.t.items()]
    if b == "D" and ((a == "S" and not f[4]) or (a == "E" and f[4])):
        p = product([f] + list(g[1]), rows(f), ONE)
        return [((("D", m), f), c) for m, c in p.t.items()]
    if a == "D" and ((b == "S" and g[4]) or (b == "E" and not g[4])):
        p = product([transpose(g)] + list(f[1]), cols(g), ONE)
        return [((g, ("D", m)), c) for m, c in p.t.items()]
    # Selections of elementwise columns.
    if ((a == "S" and not f[4]) or a == "E") and b in ("hc", "dc") and not g[3]:
        r = _select_column(f, g)
        if r is not None:
            return [(m, c) for m, c in r.t.items()]
    if a in ("hc", "dc") and f[3] and ((b == "S" and g[4]) or b == "E"):
        r = _select_column(transpose(g), transpose(f))
        if r is not None:
            return [(mono_T(m), c) for m, c in r.t.items()]
    if ((a == "S" and not f[4]) or (a == "E" and f[4])) and b in ("el", "K"):
        return _select_rows(f, g)
    if ((b == "S" and g[4]) or (b == "E" and not g[4])) and a in ("el", "K"):
        return [(mono_T(m), c) for m, c in (_select_rows(transpose(g), transpose(f)) or [])] or None
    # Cholesky factors.
    if a == "ch" and b == "ch" and f[1] == g[1]:
        tf, jf, tg, jg = f[3], f[4], g[3], g[4]
        if tf == tg and jf != jg:
            return [((), S1)]
        if not tf and tg and not jf and not jg:
            p = poly_of_key(f[1])
            if len(p.t) == 1:
                return [(m, c) for m, c in p.t.items()]
            return [((("P", f[1], f[2]),), S1)]
        if tf and not tg and jf and jg:
            return [(m, c) for m, c in inverse(poly_of_key(f[1])).t.items()]
    if a == "inv" and b == "ch" and f[1] == g[1] and not g[3] and not g[4]:
        return [((g[:3] + (True, True),), S1)]
    if a == "ch" and b == "inv" and f[1] == g[1] and f[3] and not f[4]:
        return [((f[:3] + (False, True),), S1)]
    if a == "P" and b == "ch" and f[1] == g[1] and g[3] and g[4]:
        return [((g[:3] + (False, False),), S1)]
    if a == "ch" and b == "P" and f[1] == g[1] and not f[3] and f[4]:
        return [((f[:3] + (True, False),), S1)]
    if (a, b) in (("inv", "P"), ("P", "inv")) and f[1] == g[1]:
        return [((), S1)]
    if a == "inv" and _is_single(f[1], g):
        return _single_cancel(f[1])
    if b == "inv" and _is_single(g[1], f):
        return _single_cancel(g[1])
    if a == "ch" and f[4] and not f[3] and _is_single(f[1], g):
        return [((f[:3] + (True, False),), SP(dict(f[1][2][0][1])).inv())]
    if b == "ch" and g[4] and g[3] and _is_single(g[1], f):
        return [((g[:3] + (False, False),), SP(dict(g[1][2][0][1])).inv())]
    # Roots.
    if a == "rt" and b == "rt" and f[1] == g[1]:
        return [(m, c) for m, c in poly_of_key(f[1]).t.items()]
    return None


def _is_single(key, f):
    return len(key[2]) == 1 and key[2][0][0] == (f,)


def _single_cancel(key):
    return [((), SP(dict(key[2][0][1])).inv())]


def _select_rows(s, g):
    """Row selections commute with elementwise functions (the selection is moved inside)."""
    if g[0] == "el" and not g[5]:
        args = []
        for k in g[2]:
            p = poly_of_key(k)
            q = Poly(rows(s), p.m, {})
            for m, c in p.t.items():
                q = q + product([s] + list(m), rows(s), p.m).scale(c)
            args.append(q)
        q = rowfn(g[1], args, g[4]) if g[1].startswith("fn:") else elementwise(g[1], args)
        return [(m, c) for m, c in q.t.items()]
    if g[0] == "K" and rows(s) == ONE:
        x, y = poly_of_key(g[2]), poly_of_key(g[3])
        sel = Poly(ONE, cols(s), {(s,): S1})
        if g[6]:
            return list(kernel(g[1], x, sel @ y).T.t.items())
        return list(kernel(g[1], sel @ x, y).t.items())
    return None


def _select_column(s, g):
    """Apply a selection or embedding to a column of products or a diagonal."""
    n = rows(s)
    if g[0] == "hc":
        if s[0] == "E" and not s[4]:
            return None
        parts = []
        for m in g[1]:
            parts.append(product([s] + list(m), n, ONE))
        return hc_poly(parts)
    if g[0] == "dc":
        if s[0] == "E" and not s[4]:
            return None
        m = g[1]
        p = product([s] + list(m) + [transpose(s)], n, n)
        return dcol(p)
    return None


def hc_poly(parts):
    res = parts[0]
    for q in parts[1:]:
        r = Poly(res.n, ONE, {})
        for m1, c1 in res.t.items():
            for m2, c2 in q.t.items():
                r = r + hc([m1, m2]).scale(c1 * c2)
        res = r
    return res


def _split_col(m):
    """Split a column monomial in its first segment and the remaining scalar-free part."""
    return m


def hc(monos):
    """Elementwise product of column monomials."""
    flat = []
    n = rows(monos[0][0]) if monos[0] else ONE
    for m in monos:
        if len(m) == 1 and m[0][0] == "hc" and not m[0][3]:
            flat.extend(m[0][1])
        else:
            flat.append(m)
    if n == ONE:
        # Scalars.
        c = S1
        for m in flat:
            c = c * (trace_mono(m) if m else S1)
        return Poly.scalar(c)
    one = (("one", n, False),)
    flat = [m for m in flat if not (len(m) == 1 and m[0][0] == "one")]
    if not flat:
        return Poly(n, ONE, {one: S1})
    # Embedded columns.
    for i, m in enumerate(flat):
        if m[0][0] == "E" and not m[0][4]:
            e = m[0]
            et = transpose(e)
            parts = [Poly(e[2], ONE, {m[1:]: S1}) if m[1:] else Poly.eye(e[2])]
            for j, m2 in enumerate(flat):
                if j != i:
                    parts.append(product([et] + list(m2), e[2], ONE))
            inner = hc_poly(parts)
            res = Poly(n, ONE, {})
            for mm, c in inner.t.items():
                res = res + product([e] + list(mm), n, ONE).scale(c)
            return res
    # Diagonal matrices cannot occur at the start of a column in normal form.
    if len(flat) == 1:
        return Poly(n, ONE, {flat[0]: S1})
    # Reciprocals and square roots cancel.
    r = _cancel_elementwise(flat)
    if r is not None:
        return r
    return Poly(n, ONE, {(("hc", tuple(sorted(flat, key=repr)), n, False),): S1})


def _argument(m):
    """Argument of an elementwise function that is a column."""
    p = poly_of_key(m[0][2][0])
    return p.T if m[0][5] else p


def _cancel_elementwise(flat):
    for i, m in enumerate(flat):
        if len(m) == 1 and m[0][0] == "el" and m[0][1] == "recip":
            p = _argument(m)
            if len(p.t) == 1:
                ((mm, c),) = p.t.items()
                parts = list(mm[0][1]) if len(mm) == 1 and mm[0][0] == "hc" else [mm]
                rest = [x for j, x in enumerate(flat) if j != i]
                if all(rest.count(x) >= parts.count(x) for x in parts):
                    for x in parts:
                        rest.remove(x)
                    n = rows(m[0])
                    if not rest:
                        return Poly(n, ONE, {(("one", n, False),): c.inv()})
                    return hc(rest).scale(c.inv())
        if len(m) == 1 and m[0][0] == "el" and m[0][1] == "sqrt":
            for j in range(i + 1, len(flat)):
                if flat[j] == m:
                    p = _argument(m)
                    rest = [x for k, x in enumerate(flat) if k not in (i, j)]
                    if not rest:
                        return p
                    return hc_poly([p, hc(rest)])
    # Half powers.
    halves = {}
    for i, m in enumerate(flat):
        e = _half_power(m)
        if e is not None:
            halves.setdefault(e[0], []).append((i, e[1]))
    for key, items in halves.items():
        for a in range(len(items)):
            for b in range(a + 1, len(items)):
                (i, e), (j, f) = items[a], items[b]
                rest = [x for k, x in enumerate(flat) if k not in (i, j)]
                p = poly_of_key(key)
                if (e, f) == (-1, -1):
                    q = elementwise("recip", [p])
                elif {e, f} == {1, -2}:
                    q = elementwise("recip", [elementwise("sqrt", [p])])
                elif {e, f} == {-1, 2}:
                    q = elementwise("sqrt", [p])
                else:
                    continue
                return hc_poly([q, hc(rest)]) if rest else q
    return None


def _half_power(m):
    """Key of a column and the number of halves of the power of it that `m` is."""
    if len(m) == 1 and m[0][0] == "el" and not m[0][5] and m[0][1] in ("recip", "sqrt") and len(m[0][2]) == 1:
        key = m[0][2][0]
        if m[0][1] == "sqrt":
            return key, 1
        p = poly_of_key(key)
        if len(p.t) == 1:
            ((mm, c),) = p.t.items()
            if c.key == S1.key and len(mm) == 1 and mm[0][0] == "el" and mm[0][1] == "sqrt" and not mm[0][5]:
                return mm[0][2][0], -1
        return key, -2
    return Poly(rows(m[0]), ONE, {m: S1}).key, 2


def diagm(p):
    """Diagonal matrix of a column polynomial."""
    res = Poly(p.n, p.n, {})
    if p.n == ONE:
        return Poly(ONE, ONE, dict(p.t))
    for m, c in p.t.items():
        res = res + product([("D", m)], p.n, p.n).scale(c)
    return res


def dcol(p):
    """Column with the diagonal of a square polynomial."""
    res = Poly(p.n, ONE, {})
    for m, c in p.t.items():
        res = res + _dcol_mono(m, p.n).scale(c)
    return res


def _dcol_mono(m, n):
    if n == ONE:
        return Poly.scalar(trace_mono(m)) if m else Poly.eye(ONE)
    if not m:
        return Poly(n, ONE, {(("one", n, False),): S1})
    if len(m) == 1 and m[0][0] == "D":
        return Poly(n, ONE, {m[0][1]: S1})
    if m[0][0] == "D":
        return hc_poly([Poly(n, ONE, {m[0][1]: S1}), _dcol_mono(m[1:], n)])
    if m[-1][0] == "D":
        return hc_poly([Poly(n, ONE, {m[-1][1]: S1}), _dcol_mono(m[:-1], n)])
    if any(f[0] == "P" for f in m):
        return dcol(unfold(Poly(n, n, {m: S1})))
    # Outer products.
    for i in range(len(m) - 1):
        if cols(m[i]) == ONE:
            u, v = m[: i + 1], mono_T(m[i + 1 :])
            return hc_poly([product(list(u), n, ONE), product(list(v), n, ONE)])
    a, b = m[0], m[-1]
    if a[0] == "E" and not a[4] and b[0] == "E" and b[4]:
        if a == transpose(b):
            inner = _dcol_mono(m[1:-1], a[2])
            res = Poly(n, ONE, {})
            for mm, c in inner.t.items():
                res = res + product([a] + list(mm), n, ONE).scale(c)
            return res
        bt = transpose(b)
        e1, e2 = I(a[1]) + I(a[2]), I(bt[1]) + I(bt[2])
        if ile(e1, I(bt[1])) or ile(e2, I(a[1])):
            return Poly(n, ONE, {})
        raise Unsupported("diagonal of overlapping blocks")
    if a[0] == "S" and not a[4] and b == transpose(a):
        inner = _dcol_mono(m[1:-1], (I(a[3]) - I(a[2])).key)
        if not any(mm[0][0] == "dc" for mm in inner.t if mm):
            res = Poly(n, ONE, {})
            for mm, c in inner.t.items():
                res = res + product([a] + list(mm), n, ONE).scale(c)
            return res
    if len(m) == 1 and m[0][0] == "had":
        return hc_poly([_dcol_mono(x, n) for x in m[0][1]])
    mt = mono_T(m)
    mt_n = product(list(mt), n, n)
    if len(mt_n.t) == 1:
        ((mt, c),) = mt_n.t.items()
        if c.key == S1.key:
            m = min(m, mt, key=repr)
    return Poly(n, ONE, {(("dc", m, n, False),): S1})


def hadamard(p, q):
    if not (dsame(p.n, q.n) and dsame(p.m, q.m)):
        raise ValueError(f"shapes do not match in elementwise product: {p.shape} and {q.shape}")
    res = Poly(p.n, p.m, {})
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            res = res + _had_mono(m1, m2, p.n, p.m).scale(c1 * c2)
    return res


def _rank_one(m):
    for i in range(len(m) - 1):
        if cols(m[i]) == ONE:
            return m[: i + 1], m[i + 1 :]
    return None


def _had_mono(m1, m2, n, m):
    if n == ONE and m == ONE:
        return Poly.scalar((trace_mono(m1) if m1 else S1) * (trace_mono(m2) if m2 else S1))
    if m == ONE:
        return hc([m1, m2])
    if n == ONE:
        p = hc([mono_T(m1), mono_T(m2)])
        return p.T
    for x, y in ((m1, m2), (m2, m1)):
        r = _rank_one(x)
        if r:
            u, v = r
            du = diagm(Poly(n, ONE, {u: S1}))
            dv = diagm(Poly(m, ONE, {mono_T(v): S1}))
            return du @ Poly(n, m, {y: S1}) @ dv
    for x, y in ((m1, m2), (m2, m1)):
        if not x or (len(x) == 1 and x[0][0] == "D"):
            # Diagonal matrix.
            d = _dcol_mono(y, n)
            if x:
                d = hc_poly([d, Poly(n, ONE, {x[0][1]: S1})])
            return diagm(d)
        if x[0][0] == "D":
            return Poly(n, n, {(x[0],): S1}) @ _had_mono(x[1:], y, n, m)
        if x[-1][0] == "D":
            return _had_mono(x[:-1], y, n, m) @ Poly(m, m, {(x[-1],): S1})
        if x[0][0] == "E" and not x[0][4]:
            e = x[0]
            q = product([transpose(e)] + list(y), e[2], m)
            inner = hadamard(Poly(e[2], m, {x[1:]: S1}), q)
            return Poly(n, e[2], {(e,): S1}) @ inner
        if x[-1][0] == "E" and x[-1][4]:
            e = x[-1]
            q = product(list(y) + [transpose(e)], n, e[2])
            inner = hadamard(Poly(n, e[2], {x[:-1]: S1}), q)
            return inner @ Poly(e[2], m, {(e,): S1})
    parts = []
    for x in (m1, m2):
        if len(x) == 1 and x[0][0] == "had":
            parts.extend(x[0][1])
        else:
            parts.append(x)
    # Row and column selections common to all parts come out.
    a = parts[0][0]
    if a[0] == "S" and not a[4] and all(x[0] == a for x in parts) and all(len(x) > 1 for x in parts):
        nn = cols(a)
        inner = _had_many([x[1:] for x in parts], nn, m)
        return Poly(n, nn, {(a,): S1}) @ inner
    b = parts[0][-1]
    if b[0] == "S" and b[4] and all(x[-1] == b for x in parts) and all(len(x) > 1 for x in parts):
        mm = rows(b)
        inner = _had_many([x[:-1] for x in parts], n, mm)
        return inner @ Poly(mm, m, {(b,): S1})
    return Poly(n, m, {(("had", tuple(sorted(parts, key=repr)), n, m),): S1})


def _had_many(ms, n, m):
    p = Poly(n, m, {ms[0]: S1})
    for x in ms[1:]:
        p = hadamard(p, Poly(n, m, {x: S1}))
    return p


# ---------------------------------------------------------------------------------------------
# Scalars from matrices.


def trace_mono(m):
    """Trace of a monomial: invariant under rotation and transposition."""
    if not m:
        raise Unsupported("trace of identity without size")
    if len(m) == 1 and m[0][0] == "D":
        v = m[0][1]
        n = rows(v[0])
        return trace_mono((("one", n, True),) + v)
    if len(m) == 2 and m[0][0] == "one" and m[1][0] == "one" and m[0][2] and not m[1][2]:
        return SP.dim(m[0][1])
    # Rotate such that the product starts at a dimension one if there is one.
    for i in range(len(m)):
        if rows(m[i]) == ONE:
            m = m[i:] + m[:i]
            break
    # The trace of a diagonal: 1' diag(M) = tr M.
    if len(m) == 2 and m[0][0] == "one" and m[1][0] in ("dc", "el"):
        r = _sum_of_diagonal(m[1])
        if r is not None:
            return r
    if len(m) == 2 and m[1][0] == "one" and m[0][0] in ("dc", "el") and m[0][3 if m[0][0] == "dc" else 5]:
        r = _sum_of_diagonal(transpose(m[0]))
        if r is not None:
            return r
    # With the start fixed, normalise again: the rotation can bring factors together.
    cands = []
    for i in range(len(m)):
        r = m[i:] + m[:i]
        cands.append(r)
        cands.append(mono_T(r))
    best = min(cands, key=repr)
    # Elementwise products of columns under a sum: 1' (a * b) = a' b.
    if len(m) == 2 and m[1][0] == "one" and m[0][0] == "hc":
        m = mono_T(m)
    if len(m) == 2 and m[0][0] == "one" and m[1][0] == "hc" and len(m[1][1]) == 2:
        a, b = m[1][1]
        return _trace_norm(mono_T(a) + b)
    if any(f[0] == "hc" for f in m) and rows(m[0]) == ONE:
        r = _sum_orbit(m)
        if r is not None:
            return r
    return SP.atom(("tr", best))


def _sum_orbit(m):
    """Representative of the ways to write a sum of products of columns: sum(a * b * M c) = (a * b)' M c
    = sum(c * M' (a * b))."""

    def parts(c):
        if len(c) == 1 and c[0][0] == "hc" and not c[0][3]:
            return list(c[0][1])
        return [] if len(c) == 1 and c[0][0] == "one" else [c]

    def state(*cs):
        return tuple(sorted((p for c in cs for p in parts(c)), key=repr))

    if any(rows(f) == ONE for f in m[1:]):
        return None
    start = state(mono_T(m[:1]), m[1:]) if len(m) > 1 else state(mono_T(m))
    seen, todo = {start}, [start]
    while todo and len(seen) < 40:
        s = todo.pop()
        if len(s) > 1:
            q = _cancel_elementwise(list(s))
            if q is not None:
                r = S0
                for mm, c in q.t.items():
                    r = r + _trace_norm((("one", q.n, True),) + mm) * c
                return r
        for i, p in enumerate(s):
            if len(p) < 2:
                continue
            others = s[:i] + s[i + 1 :]
            n = rows(p[0])
            if not others:
                r = (("one", n, False),)
            elif len(others) == 1:
                r = others[0]
            else:
                r = (("hc", others, n, False),)
            q = mono_T(p[:-1]) + r
            if _step(list(q)) is not None:
                continue
            t = state(p[-1:], q)
            if t not in seen:
                seen.add(t)
                todo.append(t)
    best = min(seen, key=lambda s: (len(s), repr(s)))
    n = rows(best[0][0])
    one = ("one", n, True)
    return SP.atom(("tr", (one, ("hc", best, n, False)) if len(best) > 1 else (one,) + best[0]))


def _sum_of_diagonal(f):
    """Sum of the elements of a column if that is a trace or a determinant."""
    if f[0] == "dc" and not f[3]:
        n = f[2]
        return trace(Poly(n, n, {f[1]: S1}))
    if f[0] == "el" and not f[5] and f[1] == "log" and f[4] == ONE:
        # The sum of the logarithms of the diagonal of a Cholesky factor.
        p = poly_of_key(f[2][0])
        if len(p.t) == 1:
            ((mm, c),) = p.t.items()
            if c.key == S1.key and len(mm) == 1 and mm[0][0] == "dc" and len(mm[0][1]) == 1:
                g = mm[0][1][0]
                if g[0] == "ch":
                    return logdet(poly_of_key(g[1])) * SP.const(Fraction(-1 if g[4] else 1, 2))
    return None


def _trace_norm(m):
    n = rows(m[0])
    for i in range(len(m)):
        r = list(m[i:] + m[:i])
        if _step(r) is not None:
            p = product(r, rows(r[0]), rows(r[0]))
            return trace(p)
    return trace_mono(tuple(m))


def trace(p):
    s = S0
    for m, c in p.t.items():
        if not m:
            s = s + SP.dim(p.n) * c
        else:
            s = s + _trace_rot(m) * c
    return s


def _trace_rot(m, depth=0):
    """Trace with normalisation across the rotation."""
    if len(m) > 1 and rows(m[0]) != ONE:
        for i, f in enumerate(m):
            if rows(f) == ONE:
                r = list(m[i:] + m[:i])
                if _step(r) is not None:
                    return product(r, ONE, ONE).as_scalar()
                break
    if len(m) > 1 and depth < 8 and not any(rows(f) == ONE for f in m):
        for i in range(1, len(m)):
            r = list(m[i:] + m[:i])
            if _step(r) is not None:
                p = product(r, rows(r[0]), rows(r[0]))
                s = S0
                for mm, c in p.t.items():
                    s = s + (SP.dim(p.n) if not mm else _trace_rot(mm, depth + 1)) * c
                return s
        # Diagonal factors: tr(D(a) M) = a' diag(M).
        for i, f in enumerate(m):
            if f[0] == "D":
                rest = m[i + 1 :] + m[:i]
                n = rows(f)
                q = hc_poly([Poly(n, ONE, {f[1]: S1}), _dcol_mono(rest, n)])
                s = S0
                for mm, c in q.t.items():
                    s = s + trace_mono((("one", n, True),) + mm) * c
                return s
    return trace_mono(m)


def slog(s):
    """Logarithm of a positive scalar: the sum of the logarithms of the absolute values of its factors."""
    import math

    if s.zero:
        raise Unsupported("logarithm of zero")
    c, p, ds = s.fraction()
    ((m, k),) = c.t.items()
    if p.key == S1.key and not ds and not m and k < 0:
        raise Unsupported("logarithm of a negative constant")
    r = SP.const(0 if abs(k) == 1 else math.log(abs(k)))
    for a, j in m:
        if a[0] == "sqrt":
            r = r + slog(SP(dict(a[1]))) * SP.const(Fraction(j, 2))
        else:
            r = r + SP.atom(("log", a)) * SP.const(j)
    if p.key != S1.key:
        r = r + SP.atom(("log", ("sp", p.key)))
    for a, j in ds.items():
        r = r - slog(SP(dict(a[1]))) * SP.const(j)
    return r


# ---------------------------------------------------------------------------------------------
# Inverses, square roots, determinants.


def _content(p):
    """Common scalar factor of the coefficients and the remaining polynomial."""
    items = sorted(p.t.items(), key=repr)
    c0 = items[0][1]
    if len(items) == 1:
        if len(c0.t) == 1:
            return c0, Poly(p.n, p.m, {items[0][0]: S1})
        return S1, p
    # Scalar monomial common to all.
    if all(len(c.t) == 1 for _, c in items):
        ms = [list(c.t)[0] for _, c in items]
        if all(m == ms[0] for m in ms):
            lead = c0.t[ms[0]]
            s = SP({ms[0]: abs(lead)})
            si = s.inv()
            return s, Poly(p.n, p.m, {m: c * si for m, c in items})
    return S1, p


def _is_diag_mono(m):
    return not m or (len(m) == 1 and m[0][0] == "D")


def _blocks(p):
    """If `p` is block diagonal with embeddings that cover everything, the blocks."""
    es = {}
    for m, c in p.t.items():
        if len(m) < 2:
            return None
        a, b = m[0], m[-1]
        if not (a[0] == "E" and not a[4] and b == transpose(a)):
            return None
        q = es.setdefault(a, Poly(a[2], a[2], {}))
        es[a] = q + Poly(a[2], a[2], {m[1:-1]: c})
    tot = SymInt.const(0)
    for a in es:
        tot = tot + I(a[2])
    if not isame(tot, I(p.n)):
        return None
    return es


def _congruence(p):
    """A Cholesky factor `L` such that all terms are the identity or of the form `inv(L) M inv(L)'`."""
    cand = None
    for m, c in p.t.items():
        if not m:
            continue
        f, g = m[0], m[-1]
        if f[0] == "ch" and f[4] and not f[3] and g == transpose(f) and (cand is None or cand == f):
            cand = f
        else:
            return None
    return cand


def inverse(p):
    if not dsame(p.n, p.m):
        raise ValueError("inverse of a non-square matrix")
    if p.zero:
        if isame(I(p.n), 0):
            return p
        raise ZeroDivisionError("inverse of zero")
    if p.n == ONE:
        return Poly.scalar(p.as_scalar().inv())
    s, q = _content(p)
    if s.key != S1.key:
        return inverse(q).scale(s.inv())
    if all(_is_diag_mono(m) for m in p.t):
        return diagm(elementwise("recip", [dcol(p)]))
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if len(m) > 1 and all(dsame(rows(f), cols(f)) for f in m):
            r = Poly.eye(p.n).scale(c.inv())
            for f in reversed(m):
                r = r @ inverse(Poly(p.n, p.n, {(f,): S1}))
            return r
        if len(m) == 1:
            f = m[0]
            if f[0] == "ch":
                return Poly(p.n, p.n, {(f[:4] + (not f[4],),): c.inv()})
            if f[0] == "inv":
                q = poly_of_key(f[1])
                return (q.T if f[4] else q).scale(c.inv())
            if f[0] == "P":
                return inverse(poly_of_key(f[1])).scale(c.inv())
    b = _blocks(p)
    if b is not None:
        res = Poly(p.n, p.n, {})
        for e, q in b.items():
            E = Poly(p.n, e[2], {(e,): S1})
            res = res + E @ inverse(q) @ E.T
        return res
    L = _congruence(p)
    if L is not None:
        l = Poly(p.n, p.n, {(L[:4] + (False,),): S1})
        return l.T @ inverse(l @ p @ l.T) @ l
    p = unfold(p)
    sym = p.T.key == p.key
    return Poly(p.n, p.n, {(("inv", p.key, p.n, sym, False),): S1})


def split_inner(p):
    """Expand products over a small number of elements: the identity is the sum of `E_i E_i'`."""
    r = Poly(p.n, p.m, {})
    for m, c in p.t.items():
        parts = [[m[0]]] if m else [[]]
        for f, g in zip(m, m[1:]):
            size = next((SymInt.const(v) for v in (2, 3, 4) if cols(f) == SymInt.const(v).key), None)
            if size is None or f[0] == "E" or g[0] == "E":
                parts = [a + [g] for a in parts]
            else:
                es = [("E", SymInt.const(i).key, ONE, size.key, False) for i in range(size.value)]
                parts = [a + [e, transpose(e), g] for a in parts for e in es]
        if len(parts) > 64:
            return p
        for a in parts:
            r = r + product(a, p.n, p.m).scale(c)
    return r


def unfold(p):
    """Expand folded polynomials."""
    p = _unfold_scalars(p)
    while True:
        for m, c in p.t.items():
            for i, f in enumerate(m):
                if f[0] == "P":
                    q = Poly(p.n, p.m, {mm: cc for mm, cc in p.t.items() if mm != m})
                    for m2, c2 in poly_of_key(f[1]).t.items():
                        q = q + product(list(m[:i]) + list(m2) + list(m[i + 1 :]), p.n, p.m).scale(c * c2)
                    p = q
                    break
            else:
                continue
            break
        else:
            return p


def _unfold_scalars(p):
    """Expand folded polynomials in traces in the coefficients."""
    if not any(_has_folded_trace(c) for c in p.t.values()):
        return p
    r = Poly(p.n, p.m, {})
    for m, c in p.t.items():
        r = r + Poly(p.n, p.m, {m: S1}).scale(_unfold_sp(c)) if _has_folded_trace(c) else r + Poly(p.n, p.m, {m: c})
    return r


def _has_folded_trace(c):
    return any(a[0] == "tr" and any(f[0] == "P" for f in a[1]) for sm in c.t for a, _ in sm)


def _unfold_sp(c):
    r = S0
    for sm, k in c.t.items():
        s = SP.const(k)
        for a, e in sm:
            if a[0] == "tr" and e > 0 and any(f[0] == "P" for f in a[1]):
                m = a[1]
                i = next(i for i, f in enumerate(m) if f[0] == "P")
                v = S0
                n = rows(m[0])
                for m2, c2 in poly_of_key(m[i][1]).t.items():
                    v = v + trace(product(list(m[:i]) + list(m2) + list(m[i + 1 :]), n, n)) * c2
                v = _unfold_sp(v)
                for _ in range(e):
                    s = s * v
            else:
                s = s * SP.atom(a, e)
        r = r + s
    return r


def cholesky(p):
    if not dsame(p.n, p.m):
        raise ValueError("Cholesky factor of a non-square matrix")
    if p.n == ONE:
        return Poly.scalar(ssqrt(p.as_scalar()))
    if p.zero:
        return p
    if all(_is_diag_mono(m) for m in p.t):
        return diagm(elementwise("sqrt", [dcol(p)]))
    p = unfold(p)
    return Poly(p.n, p.n, {(("ch", p.key, p.n, False, False),): S1})


def root(p):
    if p.n == ONE:
        return Poly.scalar(ssqrt(p.as_scalar()))
    if p.zero:
        return p
    if all(_is_diag_mono(m) for m in p.t):
        return diagm(elementwise("sqrt", [dcol(p)]))
    p = unfold(p)
    return Poly(p.n, p.n, {(("rt", p.key, p.n),): S1})


def ssqrt(s):
    if s.zero:
        return s
    import math

    if s.is_const and s.value >= 0:
        return SP.const(math.sqrt(s.value))
    return SP.atom(("sqrt", s.canonical().key))


def logdet(p):
    if not dsame(p.n, p.m):
        raise ValueError("determinant of a non-square matrix")
    if isame(I(p.n), 0):
        return SP.const(0)
    if p.n == ONE:
        return slog(p.as_scalar())
    s, q = _content(p)
    if s.key != S1.key:
        return SP.dim(p.n) * slog(s) + logdet(q)
    if all(_is_diag_mono(m) for m in p.t):
        v = dcol(p)
        return trace(Poly(ONE, p.n, {(("one", p.n, True),): S1}) @ elementwise("log", [v]))
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if not m:
            return SP.const(0)
        if len(m) > 1 and all(dsame(rows(f), cols(f)) for f in m):
            r = S0
            for f in m:
                r = r + logdet(Poly(p.n, p.n, {(f,): S1}))
            return r
        f = m[0]
        if len(m) == 1 and f[0] == "ch":
            return logdet(poly_of_key(f[1])) * SP.const(Fraction(-1 if f[4] else 1, 2))
        if len(m) == 1 and f[0] == "inv":
            return -logdet(poly_of_key(f[1]))
        if len(m) == 1 and f[0] == "P":
            return logdet(poly_of_key(f[1]))
        if len(m) == 1 and f[0] == "rt":
            return logdet(poly_of_key(f[1])) * SP.const(Fraction(1, 2))
    b = _blocks(p)
    if b is not None:
        r = S0
        for e, q in b.items():
            r = r + logdet(q)
        return r
    L = _congruence(p)
    if L is not None:
        l = Poly(p.n, p.n, {(L[:4] + (False,),): S1})
        return logdet(l @ p @ l.T) - logdet(poly_of_key(L[1]))
    p = unfold(p)
    return SP.atom(("logdet", p.key))


# ---------------------------------------------------------------------------------------------
# Elementwise functions.


def common_left(ps):
    """A row selection `s` with `p = s q` for all `p` in `ps`, and the `q`s."""
    s = None
    for p in ps:
        for m in p.t:
            if m and ((m[0][0] == "S" and not m[0][4]) or (m[0][0] == "E" and m[0][4])):
                if s is None:
                    s = m[0]
                elif s != m[0]:
                    return None
            elif m and m[0][0] == "one" and not m[0][2]:
                continue
            else:
                return None
    if s is None:
        return None
    out = []
    for p in ps:
        t = {}
        for m, c in p.t.items():
            if m[0] == s:
                t[m[1:]] = c
            else:
                t[(("one", cols(s), False),) + m[1:]] = c
        out.append(Poly(cols(s), p.m, t))
    return s, out


def elementwise(name, ps):
    """Elementwise function of one or more matrices of the same shape."""
    n, m = ps[0].n, ps[0].m
    if n == ONE and m == ONE:
        vals = [p.as_scalar() for p in ps]
        if name == "recip":
            return Poly.scalar(vals[0].inv())
        if name == "sqrt":
            return Poly.scalar(ssqrt(vals[0]))
        if name == "log":
            return Poly.scalar(slog(vals[0]))
        return Poly.scalar(SP.atom(("el", name, tuple(v.key for v in vals))))
    if n == ONE:
        # Rows are transposed columns.
        return elementwise(name, [p.T for p in ps]).T
    if len(ps) == 1:
        # Constant matrices and scalings.
        (p,) = ps
        if len(p.t) == 1:
            ((mm, c),) = p.t.items()
            if all(f[0] == "one" for f in mm) and len(c.t) >= 1:
                if name == "recip":
                    return Poly(n, m, {mm: c.inv()})
                if name == "sqrt":
                    return Poly(n, m, {mm: ssqrt(c)})
                if name == "log":
                    v = slog(c)
                    return Poly(n, m, {mm: v} if not v.zero else {})
            if name == "recip" and len(c.t) == 1 and c.key != S1.key:
                return elementwise(name, [Poly(n, m, {mm: S1})]).scale(c.inv())
            if name == "recip" and m == ONE and len(mm) == 1 and mm[0][0] == "hc":
                return hc_poly([elementwise("recip", [Poly(n, ONE, {x: S1})]) for x in mm[0][1]])
            if name == "recip" and m == ONE and len(mm) == 1 and mm[0][0] == "el" and mm[0][1] == "recip":
                return _argument(mm)
            if name == "log" and len(c.t) == 1 and c.key != S1.key:
                v = Poly.const(1, n, m).scale(slog(c))
                return elementwise(name, [Poly(n, m, {mm: S1})]) + v
            if name == "log" and m == ONE and len(mm) == 1 and mm[0][0] == "el" and mm[0][1] == "recip":
                return -elementwise("log", [_argument(mm)])
            if name == "log" and m == ONE and len(mm) == 1 and mm[0][0] == "el" and mm[0][1] == "sqrt":
                return elementwise("log", [_argument(mm)]).scale(Fraction(1, 2))
            if name == "log" and m == ONE and len(mm) == 1 and mm[0][0] == "hc" and c.key == S1.key:
                res = Poly(n, m, {})
                for x in mm[0][1]:
                    res = res + elementwise("log", [Poly(n, ONE, {x: S1})])
                return res
        # A constant factor of a sum.
        if len(p.t) > 1 and name in ("recip", "sqrt", "log"):
            c = abs(min(p.t.items(), key=repr)[1].key[0][1])
            if c != 1:
                q = p.scale(SP.const(1 / c))
                c = SP.const(c)
                if name == "log":
                    return elementwise(name, [q]) + Poly.const(1, n, m).scale(slog(c))
                return elementwise(name, [q]).scale(c.inv() if name == "recip" else ssqrt(c))
        # Concatenations of columns: elementwise functions act per block.
        if p.t and all(mm and mm[0][0] == "E" and not mm[0][4] for mm in p.t):
            es = {}
            for mm, c in p.t.items():
                es.setdefault(mm[0], {})[mm[1:]] = c
            tot = SymInt.const(0)
            for e in es:
                tot = tot + I(e[2])
            if isame(tot, I(n)):
                res = Poly(n, m, {})
                for e, t in es.items():
                    res = res + Poly(n, e[2], {(e,): S1}) @ elementwise(name, [Poly(e[2], m, t)])
                return res
    cl = common_left(ps)
    if cl is not None:
        # Keep the selection inside (canonical), but on the unselected normal forms.
        pass
    return Poly(n, m, {(("el", name, tuple(p.key for p in ps), n, m, False),): S1})


# ---------------------------------------------------------------------------------------------
# Kernel matrices and functions of the rows of inputs.


def row_blocks(p):
    """If `p` is a concatenation of blocks of rows, the embeddings and the blocks."""
    es = {}
    for m, c in p.t.items():
        if m and m[0][0] == "E" and not m[0][4]:
            es.setdefault(m[0], {})[m[1:]] = c
    if not es:
        return None
    tot = SymInt.const(0)
    for e in es:
        tot = tot + I(e[2])
    if not isame(tot, I(p.n)):
        return None
    out = []
    for e in es:
        et = transpose(e)
        q = Poly(e[2], p.m, {})
        for m, c in p.t.items():
            q = q + product([et] + list(m), e[2], p.m).scale(c)
        out.append((Poly(p.n, e[2], {(e,): S1}), q))
    return out


def kernel(name, x, y, T=False):
    """Kernel matrix of the kernel with name `name`, a pair: the kernel with the names exchanged is the
    transposition."""
    if not dsame(x.m, y.m) and False:
        raise ValueError("inputs of different dimensionalities")
    b = row_blocks(x)
    if b is not None:
        res = Poly(x.n, y.n, {})
        for e, q in b:
            res = res + e @ kernel(name, q, y)
        return res
    b = row_blocks(y)
    if b is not None:
        res = Poly(x.n, y.n, {})
        for e, q in b:
            res = res + kernel(name, x, q) @ e.T
        return res
    # Selections come out, except selections of single rows: those go in.
    cl = common_left([x])
    if cl is not None and rows(cl[0]) != ONE:
        s, (q,) = cl
        return Poly(rows(s), cols(s), {(s,): S1}) @ kernel(name, q, y)
    cl = common_left([y])
    if cl is not None and rows(cl[0]) != ONE:
        s, (q,) = cl
        return kernel(name, x, q) @ Poly(rows(s), cols(s), {(s,): S1}).T
    a, b = name
    xk, yk = x.key, y.key
    flip = (b, repr(yk)) < (a, repr(xk))
    if flip:
        a, b, xk, yk = b, a, yk, xk
    n, m = xk[0], yk[0]
    if dzero(n) or dzero(m):
        return Poly(x.n, y.n, {})
    if n == ONE and m == ONE:
        return Poly.scalar(SP.atom(("k", (a, b), xk, yk)))
    f = ("K", (a, b), xk, yk, n, m, flip and not (a == b and xk == yk), a == b and xk == yk)
    return Poly(x.n, y.n, {(f,): S1})


def rowfn(name, args, m):
    """Function that acts on the rows of its arguments and gives rows of width `m`."""
    m = dkey(m) if not isinstance(m, tuple) else m
    n = args[0].n
    if dzero(n) or dzero(m):
        return Poly(n, m, {})
    for k, a in enumerate(args):
        b = row_blocks(a)
        if b is not None:
            res = Poly(n, m, {})
            for e, q in b:
                others = [q if i == k else e.T @ o for i, o in enumerate(args)]
                res = res + e @ rowfn(name, others, m)
            return res
    if n == ONE and m == ONE:
        return Poly.scalar(SP.atom(("el", name, tuple(p.key for p in args))))
    return Poly(n, m, {(("el", name, tuple(p.key for p in args), n, m, False),): S1})
