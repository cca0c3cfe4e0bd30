"""The two worlds in which a contract is executed.

A contract is a function of a world `w`.  In the symbolic world all data are arbitrary (symbolic) and equations
become proof obligations; in the numeric world all data are random numbers, the code under verification runs
without any instrumentation, and equations are compared numerically.  The numeric world replays refutations and
is the bounded stand-in where an obligation is out of reach of the verifier.
"""
import traceback

import numpy as np

from .core import Ctx, Obligation, PathEnd, SymBool, SymInt, Unsupported

CONTRACTS = []


class Contract:
    def __init__(self, name, functions, run, **options):
        self.name, self.functions, self.run, self.options = name, functions, run, options


def contract(name, *functions, **options):
    """Register a contract harness for functions of the code under verification."""

    def decorator(f):
        CONTRACTS.append(Contract(name, functions, f, **options))
        return f

    return decorator


class Violated(Exception):
    """A concrete execution violates a contract."""


def _kernels():
    """Kernel and mean classes of arbitrary processes.  Defined lazily because LAB must be patched first."""
    from mlkernels import Kernel, Mean, elwise, pairwise
    from lab import B

    class AtomKernel(Kernel):
        """Covariance function of two arbitrary processes."""

        def __init__(self, w, a, b):
            self.w, self.a, self.b = w, a, b

        def render(self, formatter):
            return f"k[{self.a},{self.b}]"

        def __eq__(self, other):
            return isinstance(other, AtomKernel) and (self.a, self.b) == (other.a, other.b)

        def __hash__(self):
            return hash((self.a, self.b))

    class AtomMean(Mean):
        """Mean function of an arbitrary process."""

        def __init__(self, w, a):
            self.w, self.a = w, a

        def __call__(self, x):
            if isinstance(x, tuple) or type(x).__name__ == "FDD":
                raise RuntimeError(f'For mean {self}, could not resolve argument "{x}".')
            return self.w.M(self.a, x)

        def render(self, formatter):
            return f"m[{self.a}]"

        def __eq__(self, other):
            return isinstance(other, AtomMean) and self.a == other.a

        def __hash__(self):
            return hash(self.a)

    @pairwise.dispatch
    def pairwise(k: AtomKernel, x: B.Numeric, y: B.Numeric):
        return k.w.matrix(k.w.K(k.a, k.b, x, y))

    @elwise.dispatch
    def elwise(k: AtomKernel, x: B.Numeric, y: B.Numeric):
        return k.w.diag(k.w.K(k.a, k.b, x, y))

    _derivatives()
    return AtomKernel, AtomMean


def _derivatives():
    """Assumed contract of derivative kernels and means of arbitrary processes."""
    import sys

    if "lab.types" not in sys.modules or "pyvc.symlab" not in sys.modules:
        return
    from lab import B
    from matrix import Dense
    from mlkernels import DerivativeKernel, DerivativeMean, Mean, elwise, pairwise
    from mlkernels.util import expand

    from . import terms as t
    from .symlab import SymArr

    def compute(k, x, y):
        i, j = expand(k.derivs)
        x = x if x.core == 2 else SymArr(x.p, 2)
        y = y if y.core == 2 else SymArr(y.p, 2)
        out = B.dense(k[0](x, y))
        res = t.Poly.zeros(x.p.n, y.p.n)
        for m, c in out.p.t.items():
            if len(m) == 1 and m[0][0] == "K":
                (a, b), xk, yk, T = m[0][1], m[0][2], m[0][3], m[0][6]
                if T:
                    a, b, xk, yk = b, a, yk, xk
            elif not m and len(c.t) == 1 and len(list(c.t)[0]) >= 1:
                ks = [(at, e) for at, e in list(c.t)[0] if at[0] == "k"]
                if len(ks) != 1 or ks[0][1] != 1:
                    raise Unsupported("derivative of a product")
                (a, b), xk, yk = ks[0][0][1:]
                c = t.SP({tuple(z for z in mm if z[0][0] != "k"): v for mm, v in c.t.items()})
                if xk != x.p.key:
                    a, b, xk, yk = b, a, yk, xk
            else:
                raise Unsupported("derivative of a general kernel")
            if xk == y.p.key and yk == x.p.key and xk != yk:
                a, b, xk, yk = b, a, yk, xk
            if not (xk == x.p.key and yk == y.p.key):
                raise Unsupported("derivative of a kernel at transformed inputs")
            if a == b and i != j and xk == yk:
                pass
            a = a if i is None else f"∂{i}{a}"
            b = b if j is None else f"∂{j}{b}"
            res = res + t.kernel((a, b), x.p, y.p).scale(c)
        return SymArr(res, 2)

    @pairwise.dispatch(precedence=2)
    def pairwise(k: DerivativeKernel, x: SymArr, y: SymArr):
        return Dense(compute(k, x, y))

    @elwise.dispatch(precedence=2)
    def elwise(k: DerivativeKernel, x: SymArr, y: SymArr):
        c = compute(k, x, y)
        return SymArr(t.dcol(c.p), 2)

    old = DerivativeMean.__call__

    def call(self, x):
        if not isinstance(x, SymArr):
            return old(self, x)
        i = self.derivs[0]
        x = SymArr(x.p, 2)
        out = B.dense(self[0](x))
        res = t.Poly.zeros(x.p.n, 1)
        for m, c in out.p.t.items():
            if len(m) == 1 and m[0][0] == "el" and m[0][1].startswith("fn:m") and m[0][2] == (x.p.key,):
                res = res + t.rowfn("fn:m" + f"∂{i}" + m[0][1][4:], [x.p], 1).scale(c)
            elif not m and len(c.t) == 1 and len(list(c.t)[0]) == 1 and list(c.t)[0][0][0][:2] == ("el",) + list(c.t)[0][0][0][1:2]:
                ((at, e),) = list(c.t)[0]
                if e != 1 or not at[1].startswith("fn:m") or at[2] != (x.p.key,):
                    raise Unsupported("derivative of a general mean")
                v = list(c.t.values())[0]
                res = res + t.rowfn("fn:m" + f"∂{i}" + at[1][4:], [x.p], 1).scale(v)
            else:
                raise Unsupported("derivative of a general mean")
        return SymArr(res, 2)

    DerivativeMean.__call__ = call


# Names of derivatives have the dimensions as prefix.
_DERIVATIVE = "∂0123456789"


class World:
    _cls = None
    zero_kernels = zero_means = ()

    def more(self, *options):
        """Options that are only explored in the thorough tier."""
        return options if self.tier == "thorough" else ()

    tier = "quick"

    def classes(self):
        if World._cls is None:
            World._cls = _kernels()
        return World._cls

    def zero_kernel(self, a, b):
        return frozenset((a.lstrip(_DERIVATIVE), b.lstrip(_DERIVATIVE))) in self.zero_kernels

    def law(self, *names, measure=None, zero_mean=(), independent=(), prefix=""):
        """A measure with processes of an arbitrary joint law."""
        from stheno import Measure
        from mlkernels import ZeroKernel, ZeroMean

        m = Measure() if measure is None else measure
        if not hasattr(self, "names"):
            self.names = {}
        AtomKernel, AtomMean = self.classes()
        ps = []
        indep = {frozenset(x) for x in independent}
        self.zero_kernels = {frozenset((prefix + a, prefix + b)) for a, b in map(tuple, independent)}
        self.zero_means = {prefix + a for a in zero_mean}

        def make(a):
            def cross(i, flip):
                b = self.names[i]
                if frozenset((a, b)) in indep:
                    return ZeroKernel()
                x, y = (b, a) if flip else (a, b)
                return AtomKernel(self, prefix + x, prefix + y)

            return m.add_gp(
                ZeroMean() if a in zero_mean else AtomMean(self, prefix + a),
                ZeroKernel() if frozenset((a,)) in indep else AtomKernel(self, prefix + a, prefix + a),
                lambda j: cross(j, False),
                lambda i: cross(i, True),
            )

        for a in names:
            p = make(a)
            self.names[id(p)] = a
            ps.append(p)
        self.keep = getattr(self, "keep", []) + [ps, m]
        return (m, *ps)

    def posterior(self, m, prefix):
        """A posterior of `m` that is an arbitrary joint law: names get a prefix."""
        from stheno.model.observations import AbstractObservations

        AtomKernel, AtomMean = self.classes()
        w = self

        class Obs(AbstractObservations):
            def __init__(self):
                pass

            def _name(self, p):
                names = getattr(w, "names", {})
                i = p if isinstance(p, int) else id(p)
                return names[i] if i in names else "other"

            def posterior_mean(self, measure, p):
                assert measure is m
                return AtomMean(w, prefix + self._name(p))

            def posterior_kernel(self, measure, p, q):
                assert measure is m
                return AtomKernel(w, prefix + self._name(p), prefix + self._name(q))

        return m.condition(Obs())


def _flat(x):
    from lab import B
    from matrix import AbstractMatrix

    return B.dense(x) if isinstance(x, AbstractMatrix) else x


class SymWorld(World):
    sym = True

    def __init__(self, c, contract_name=""):
        from . import symlab, terms

        self.c, self.t, self.s = c, terms, symlab
        self.contract_name = contract_name
        c.positive = set()
        c.nonneg = set()
        c.mask_prefix = {}

    # Choices.
    def choose(self, label, *options):
        return self.c.decide(list(options), label)

    def assume(self, cond):
        if not cond:
            raise PathEnd

    def cover(self, name):
        self.c.covers.add(f"{self.contract_name}: {name}")

    # Dimensions.
    def dim(self, name, modes=("many",)):
        mode = modes[0] if len(modes) == 1 else self.choose(f"dim {name}", *modes)
        if mode == "zero":
            return 0
        if mode == "one":
            return 1
        if isinstance(mode, int):
            return mode
        return SymInt.var(name, lo=2)

    # Data.
    def _atom(self, name, n, m, sym=False):
        t = self.t
        n, m = t.dkey(n), t.dkey(m)
        if n == t.ONE and m == t.ONE:
            return t.Poly.scalar(t.SP.atom(("s", name)))
        return t.Poly.factor(("at", name, n, m, sym, False))

    def num(self, name, positive=False):
        if positive:
            self.c.positive.add(name)
        return self.s.SymArr(self.t.Poly.scalar(self.t.SP.atom(("s", name))), 0)

    def vec(self, name, n, positive=False):
        """A vector: rank one."""
        if positive:
            self.c.positive.add(name)
        return self.s.SymArr(self._atom(name, n, 1), 1)

    def mat(self, name, n, m, batch=()):
        return self.s.SymArr(self._atom(name, n, m), 2, batch)

    def pd(self, name, n, batch=()):
        """Symmetric positive-definite matrix."""
        self.c.positive.add(name)
        return self.s.SymArr(self._atom(name, n, n, True), 2, batch)

    def input(self, name, n, d=None, batch=()):
        """Inputs: rank one if `d` is `None`."""
        if d is None:
            return self.s.SymArr(self._atom(name, n, 1), 1)
        return self.s.SymArr(self._atom(name, n, d), 2, batch)

    def column(self, name, n):
        return self.mat(name, n, 1)

    def fn(self, name, d=1):
        """A function that acts on the rows of an input and gives rows of width `d`."""

        def f(x):
            x = self.s.lift(x)
            if x.core == 1:
                return self.s.SymArr(self.t.rowfn("fn:" + name, [x.p], d), 1 if d == 1 else 2)
            return self.s.SymArr(self.t.rowfn("fn:" + name, [x.p], d), 2, x.batch)

        return f

    def apply(self, name, x, d=1):
        """The values of the function `name` as a matrix."""
        x = self.col(x)
        return self.s.SymArr(self.t.rowfn("fn:" + name, [x.p], d), 2, x.batch)

    def mask(self, name, *ns):
        """A mask of consecutive blocks of sizes `ns`: everything, nothing, or an arbitrary part of every block."""
        pos = count = SymInt.const(0)
        self.c.mask_prefix[name, pos.key] = count
        for i, n in enumerate(ns):
            n = SymInt.of(n)
            if n.is_const and n.value == 0:
                continue
            if n.is_const and n.value == 1:
                mode = self.choose(f"{name} block {i}", "all", "none")
            else:
                mode = self.choose(f"{name} block {i}", "some", "all", "none", "single")
            k = n
            if mode == "none":
                k = SymInt.const(0)
            elif mode == "single":
                k = SymInt.const(1)
            elif mode == "some":
                k = SymInt.var(f"{name}.{i}", lo=2)
                self.c.assume(k.z3() < n.z3())
                if self.c.solver.check().r < 0:
                    raise PathEnd
            pos, count = pos + n, count + k
            self.c.mask_prefix[name, pos.key] = count
        return self.s.SymMask([(name, SymInt.const(0), pos)])

    def selection(self, mask):
        """Matrix that selects the elements of a mask."""
        return self.s.SymArr(mask.selection(), 2)

    def missing(self, y, mask):
        """`y` with missing values outside of the mask."""
        return self.s.SymArr(y.p, y.core, y.batch, None if mask.all() else ~mask)

    def state(self, name):
        return self.s.SymState(name)

    def reshaped(self, x, n, m):
        """`x` of which dimensions of size one may have been removed."""
        if len(x.shape) == 2:
            return x
        x = self.col(x)
        return self.T(x) if n == 1 and not m == 1 else x

    def draws(self, label, f, num, source="state"):
        """Mean and variance of the columns of a sample: independent columns that are affine in the standard normal
        draws from the state.  `f(state)` gives a state and a sample, and `f(None)` is a sample with the global random
        state.

        Returns:
            tuple: Mean and variance.
        """
        t = self.t
        value = self.choose("random states", "advanced in place", "values") == "values"
        if source == "global":
            state = self.c.global_state = self.s.SymState("global", 0, value)
            x, again = self.col(f(None)), self.col(f(None))
            new = self.c.global_state
        else:
            state = self.s.SymState("drawn", 0, value)
            between, x = f(state)
            self.true(label + ": the state is returned", between is state or value)
            new, again = f(between)
            x, again = self.col(x), self.col(again)
        mean, parts, names = self._affine(x, num)
        _, _, names2 = self._affine(again, num)
        prefix = f"eps[{state.name}#"
        self.true(label + ": draws are from the random state", all(n.startswith(prefix) for n in names | names2))
        self.true(label + ": draws are new", not names & names2)
        # A later draw would be another one.
        self.true(label + ": the state is advanced", all(int(n[len(prefix) : -1]) < new.pos for n in names | names2))
        n = x.p.n
        e = t.Poly.zeros(n, n)
        for a in parts:
            e = e + a @ a.T
        k = self.s.SymInt.of(num)
        ones = t.Poly.factor(("one", t.dkey(k), False)) if t.dkey(k) != t.ONE else t.Poly.eye(t.ONE)
        mean1 = (mean @ ones).scale(t.SP.dim(t.dkey(k)).inv())
        self.eq(label + ": columns have equal means", self.s.SymArr(mean, 2), self.s.SymArr(mean1 @ ones.T, 2))
        return self.s.SymArr(mean1, 2), self.s.SymArr(e, 2)

    def _affine(self, x, num):
        """Write `x` as `mean + sum(A @ draws)`."""
        t = self.t
        single = t.dkey(self.s.SymInt.of(num)) == t.ONE
        is_draw = lambda a: a[0] in ("at", "s") and isinstance(a[1], str) and a[1].startswith("eps[")
        mean, parts = t.Poly.zeros(x.p.n, x.p.m), {}

        def add(name, p):
            if "eps[" in repr(p.key):
                raise Unsupported("sample that is not affine in the draws")
            parts[name] = parts[name] + p if name in parts else p

        for m, c in x.p.t.items():
            if "eps[" not in repr((m, c.key)):
                mean = mean + t.Poly(x.p.n, x.p.m, {m: c})
            elif m and is_draw(m[-1]):
                g = m[-1]
                if t.rows(g) != g[2] or g[5] or g[3] != t.dkey(self.s.SymInt.of(num)):
                    raise Unsupported("sample of which the columns are not independent")
                add(g[1], t.Poly(x.p.n, g[2], {m[:-1]: c}))
            elif not single:
                raise Unsupported("sample of which the columns are not independent")
            elif "eps[" in repr(m):
                # An elementwise product with the draws.
                f = m[-1]
                if f[0] != "hc" or f[3] or "eps[" in repr((m[:-1], c.key)):
                    raise Unsupported("sample that is not affine in the draws")
                at = [i for i, q in enumerate(f[1]) if "eps[" in repr(q)]
                q = f[1][at[0]]
                if len(at) != 1 or not is_draw(q[-1]) or "eps[" in repr(q[:-1]):
                    raise Unsupported("sample that is not affine in the draws")
                rest = t.hc([x for i, x in enumerate(f[1]) if i != at[0]])
                n = t.rows(q[0])
                left = t.diagm(rest) @ t.Poly(n, q[-1][2], {q[:-1]: t.S1})
                add(q[-1][1], t.Poly(x.p.n, n, {m[:-1]: c}) @ left)
            else:
                # The draws are part of scalars.
                for sm, k in c.t.items():
                    rest = tuple(e for e in sm if "eps[" not in repr(e))
                    inside = [e for e in sm if "eps[" in repr(e)]
                    left = t.Poly(x.p.n, t.ONE, {m: t.SP({rest: k})})
                    if not inside:
                        mean = mean + left
                        continue
                    (a, e), *others = inside
                    if others or e != 1:
                        raise Unsupported("sample that is not affine in the draws")
                    if is_draw(a):
                        add(a[1], left)
                    elif a[0] == "tr":
                        r = a[1]
                        if any(is_draw(g) and g[5] for g in r):
                            r = t.mono_T(r)
                        at = [i for i, g in enumerate(r) if is_draw(g)]
                        if len(at) != 1 or r[at[0]][3] != t.ONE:
                            raise Unsupported("sample that is not affine in the draws")
                        g = r[at[0]]
                        r = r[at[0] + 1 :] + r[: at[0]]
                        add(g[1], left @ t.product(list(r), t.ONE, g[2]))
                    else:
                        raise Unsupported("sample that is not affine in the draws")
        return mean, list(parts.values()), set(parts)

    def tensor(self, x):
        return x

    def columns(self, x, dims):
        """Select columns."""
        x = self.col(x)
        return self.s.SymArr(x.p @ self.s._columns(list(dims), x.p.shape[1].value), 2, x.batch)

    def fdm(self, order, deriv):
        return _FDM(self, order, deriv)

    # Specifications.
    def col(self, x):
        """As a rank-two array."""
        x = self.s.lift(_flat(x))
        return self.s.SymArr(x.p, 2, x.batch, x.nan) if x.core < 2 else x

    def matrix(self, x):
        from matrix import Dense

        return Dense(x)

    def K(self, a, b, x, y):
        x, y = self.col(x), self.col(y)
        if self.zero_kernel(a, b):
            return self.zeros(x.shape[-2], y.shape[-2])
        nan = "poison" if x.nan is not None or y.nan is not None else None
        return self.s.SymArr(self.t.kernel((a, b), x.p, y.p), 2, x.batch or y.batch, nan)

    def M(self, a, x):
        x = self.col(x)
        if a.lstrip(_DERIVATIVE) in self.zero_means:
            return self.zeros(x.shape[-2], 1)
        return self.s.SymArr(self.t.rowfn("fn:m" + a, [x.p], 1), 2, x.batch)

    def diag(self, x):
        """Diagonal as a column."""
        x = self.col(x)
        return self.s.SymArr(self.t.dcol(x.p), 2, x.batch)

    def dg(self, x):
        """Diagonal matrix of a vector or column."""
        x = self.col(x)
        return self.s.SymArr(self.t.diagm(x.p), 2, x.batch)

    def T(self, x):
        x = self.col(x)
        return self.s.SymArr(x.p.T, 2, x.batch)

    def inv(self, x):
        x = self.col(x)
        return self.s.SymArr(self.t.inverse(x.p), 2, x.batch)

    def chol(self, x):
        x = self.col(x)
        return self.s.SymArr(self.t.cholesky(x.p), 2, x.batch)

    def root(self, x):
        x = self.col(x)
        return self.s.SymArr(self.t.root(x.p), 2, x.batch)

    def logdet(self, x):
        x = self.col(x)
        return self.s.SymArr(self.t.Poly.scalar(self.t.logdet(x.p)), 0, x.batch)

    def trace(self, x):
        x = self.col(x)
        return self.s.SymArr(self.t.Poly.scalar(self.t.trace(x.p)), 0, x.batch)

    def eye(self, n):
        return self.s.SymArr(self.t.Poly.eye(n), 2)

    def zeros(self, n, m):
        return self.s.SymArr(self.t.Poly.zeros(n, m), 2)

    def ones(self, n, m):
        return self.s.SymArr(self.t.Poly.const(1, n, m), 2)

    def had(self, x, y):
        x, y = self.col(x), self.col(y)
        return self.s.SymArr(self.t.hadamard(x.p, y.p), 2, x.batch or y.batch)

    def sqrt(self, x):
        return self.s.elementwise("sqrt", x)

    def lowrank_inv(self, N, U, K):
        """Inverse of `N + U inv(K) U'` (lemma: the identity of Woodbury)."""
        iN = self.inv(N)
        return iN - iN @ U @ self.inv(K + self.T(U) @ iN @ U) @ self.T(U) @ iN

    def lowrank_logdet(self, N, U, K):
        """Log-determinant of `N + U inv(K) U'` (lemma: the matrix determinant lemma)."""
        return self.logdet(N) + self.logdet(K + self.T(U) @ self.inv(N) @ U) - self.logdet(K)

    def log2pi(self):
        import math

        return math.log(2 * math.pi)

    def scalar(self, x):
        """A one-by-one matrix or number as a scalar."""
        x = self.col(x)
        return self.s.SymArr(x.p, 0, x.batch)

    def logdet_batch(self, x):
        x = self.col(x)
        return self.s.SymArr(self.t.Poly.scalar(self.t.logdet(x.p)), 0, x.batch)

    def per_batch(self, x, n):
        """A number per element of a batch as a column of length `n` per element."""
        return self.s.SymArr(self.t.Poly.const(1, n, 1).scale(x.p.as_scalar()), 2, x.batch)

    def number(self, n):
        """A dimension as a scalar."""
        return self.s.lift(n)

    def as_column(self, x):
        """A vector as a column."""
        x = self.s.lift(_flat(x))
        if x.core == 2 and not x.batch:
            x = self.s.rows_as_batch(x)
        if x.core == 1:
            return self.s.SymArr(x.p, 2, x.batch, x.nan)
        if x.core == 0:
            return x
        raise Unsupported("vector as a column")

    def as_vector(self, x):
        """A column as a vector."""
        x = self.s.lift(_flat(x))
        return self.s.SymArr(x.p, 1, x.batch, x.nan)

    def quiet(self):
        """A world with the same values in which obligations are ignored."""
        q = object.__new__(type(self))
        q.__dict__.update(self.__dict__)
        q._add = lambda *a, **k: None
        q.eq = q.true = lambda *a, **k: None
        return q

    def blocks(self, rows):
        return self.stack(*[self._concat(r, -1) for r in rows])

    def stack(self, *xs):
        return self._concat(xs, -2)

    def _concat(self, xs, axis):
        xs = [self.col(x) for x in xs]
        batch = self.s._batches(*xs)
        return self.s.concat(*[self.s.SymArr(x.p, 2, batch, x.nan) for x in xs], axis=axis)

    def nonneg(self, x):
        """Register that the elements of `x` are nonnegative (a consequence of positive definiteness)."""
        x = self.col(x)
        self.c.nonneg.add(x.p.key)
        if x.p.n == self.t.ONE and x.p.m == self.t.ONE:
            self.c.nonneg.add(x.p.as_scalar().key)

    # Obligations.
    def _add(self, name, status, detail="", backend="normaliser"):
        o = Obligation(
            f"{self.contract_name}: {name}",
            status,
            detail,
            tuple(self.c.trace),
            backend,
            tuple(self.c.decisions),
        )
        if status == "refuted":
            o.sizes = self._sizes()
        self.c.obligations.append(o)

    def _sizes(self):
        """Sizes that satisfy the path condition."""
        import z3

        if self.c.solver.check() != z3.sat:
            return None
        m = self.c.solver.model()
        return {k: m.eval(v, model_completion=True).as_long() for k, v in self.c.ivars.items()}

    def true(self, name, cond, detail=""):
        if isinstance(cond, SymBool):
            if self.c.entails(cond.c):
                self._add(name, "discharged", backend="z3")
            else:
                self._add(name, "refuted", detail or f"not entailed: {cond.c}", "z3")
            return
        self._add(name, "discharged" if cond else "refuted", detail, "execution")

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            self._add(name, "discharged", backend="execution")
        except (PathEnd, Unsupported):
            raise
        except BaseException as e:
            self._add(name, "refuted", f"raised {type(e).__name__}: {e}", "execution")
        else:
            self._add(name, "refuted", f"did not raise {exc}", "execution")

    def eq(self, name, got, want, rank=None):
        """`got` equals `want`: values and shapes."""
        s, t = self.s, self.t
        from .core import isame

        try:
            got, want = s.lift(_flat(got)), s.lift(_flat(want))
        except Unsupported as e:
            self._add(name, "unsupported", str(e))
            return
        if got.core == want.core and (not got.batch or not want.batch):
            # All elements of a batch are the same.
            got = s.SymArr(got.p, got.core, (), got.nan)
            want = s.SymArr(want.p, want.core, (), want.nan)
        gs, ws = got.shape, want.shape
        if len(gs) != len(ws) or not all(isame(a, b) for a, b in zip(gs, ws)):
            self._add(name, "refuted", f"shape {gs} instead of {ws}", "z3")
            return
        if any(isame(a, 0) for a in gs):
            self._add(name, "discharged", backend="z3")
            return
        if got.nan is not None and got.nan != want.nan:
            self._add(name, "refuted", "missing values have been used", "execution")
            return
        try:
            if got.p.key == want.p.key or (got.p - want.p).zero:
                self._add(name, "discharged")
                return
            d = t.unfold(got.p - want.p)
            if d.zero or d.cleared().zero or t.split_inner(d).zero:
                self._add(name, "discharged")
                return
        except Unsupported as e:
            self._add(name, "unsupported", str(e))
            return
        detail = f"got {got.p!r}\nwant {want.p!r}"
        status, extra = "incomplete", ""
        from .evalnum import Interp

        votes = []
        for seed in range(1, 6):
            try:
                i = Interp(self.c, seed)
                a, b = i.poly(got.p), i.poly(want.p)
            except Unsupported as e:
                extra = str(e)
                continue
            except (np.linalg.LinAlgError, ZeroDivisionError, FloatingPointError):
                continue
            scale = 1 + np.max(np.abs(b), initial=0)
            err = np.max(np.abs(a - b), initial=0)
            if not np.isfinite(err):
                continue
            votes.append(err > 1e-6 * scale)
            if len(votes) >= 2:
                break
        if votes and any(votes):
            status = "refuted"
        elif not votes:
            status = "unsupported"
        self._add(name, status, (extra + "\n" if extra else "") + detail)


class _FDM:
    """Stand-in for the library fdm: an arbitrary finite-difference approximation."""

    def __init__(self, w, order, deriv):
        self.order, self.deriv = order, deriv
        self.grid = [w.num(f"g{i}") for i in range(order)]
        self.coefs = [w.num(f"c{i}") for i in range(order)]
        self.step_value = w.num("h", positive=True)
        self.estimated = False

    @property
    def step(self):
        if not self.estimated:
            raise RuntimeError("the step size has not been estimated")
        return self.step_value

    def estimate(self, *args, **kw_args):
        self.estimated = True
        return self

    def __call__(self, order, deriv, **kw_args):
        assert (order, deriv) == (self.order, self.deriv), "wrong order or derivative"
        return self

    def installed(self):
        import contextlib

        import fdm
        import stheno.model.gp as gp

        @contextlib.contextmanager
        def ctx():
            old = fdm.central_fdm
            names = [k for k, v in vars(gp).items() if v is old]
            fdm.central_fdm = self
            for k in names:
                setattr(gp, k, self)
            try:
                yield
            finally:
                fdm.central_fdm = old
                for k in names:
                    setattr(gp, k, old)

        return ctx()


class NumWorld(World):
    """Concrete executions of the unmodified code.

    Args:
        seed (int): Seed.
        script (list): Choices to follow: pairs of labels and indices.
    """

    sym = False
    tol = 1e-5
    integers = False  # Are the inputs and values integers?

    def __init__(self, seed, script=None, contract_name=""):
        self.rng = np.random.RandomState(seed)
        self.seed = seed
        self.script = list(script or [])
        self.contract_name = contract_name
        self.log = []
        self.checked = 0
        self.values = {}
        self.failures = []
        _ValueDraws.install()

    def choose(self, label, *options):
        for k, (l, i) in enumerate(self.script):
            if l == label:
                del self.script[k]
                if i < len(options):
                    self.log.append((label, repr(options[i])))
                    return options[i]
                break
        i = self.rng.randint(len(options))
        self.log.append((label, repr(options[i])[:100]))
        return options[i]

    def assume(self, cond):
        if not cond:
            raise PathEnd

    def cover(self, name):
        pass

    def dim(self, name, modes=("many",)):
        mode = modes[0] if len(modes) == 1 else self.choose(f"dim {name}", *modes)
        if mode == "zero":
            return 0
        if mode == "one":
            return 1
        if isinstance(mode, int):
            return mode
        if ("size", name) in self.values:
            return self.values["size", name]
        n = int(self.rng.randint(2, 5))
        if 2 <= self.sizes.get(name, 0) <= 60:
            n = self.sizes[name]
        self.values["size", name] = n
        self.log.append((f"size {name}", n))
        return n

    def _rng(self, *key):
        import zlib

        return np.random.RandomState(zlib.crc32(repr((self.seed,) + key).encode()) % (2**32 - 1))

    def _value(self, name, shape, f):
        k = (name, shape)
        if k not in self.values:
            self.values[k] = f(self._rng(name, shape))
        return self.values[k].copy() if shape else self.values[k]

    def num(self, name, positive=False):
        def make(r):
            if self.integers:
                return int(r.randint(1, 4) * (1 if positive else r.choice([-1, 1])))
            v = r.uniform(0.3, 2.0)
            return float(v if positive else v * r.choice([-1, 1]))

        return self._value(name, (), make)

    def vec(self, name, n, positive=False):
        if self.integers:
            return self._value(name, (n,), lambda r: r.randint(1 if positive else -3, 4, size=n))
        return self._value(name, (n,), lambda r: 0.3 + np.abs(r.randn(n)) if positive else r.randn(n))

    def mat(self, name, n, m, batch=()):
        batch = tuple(batch)
        if self.integers:
            return self._value(name, batch + (n, m), lambda r: r.randint(-3, 4, size=(*batch, n, m)))
        return self._value(name, batch + (n, m), lambda r: r.randn(*batch, n, m))

    def pd(self, name, n, batch=()):
        def make(r):
            if self.integers:
                a = r.randint(-2, 3, size=(*batch, n, n))
                return np.matmul(a, np.swapaxes(a, -1, -2)) + np.eye(n, dtype=int)
            a = r.randn(*batch, n, n)
            return np.matmul(a, np.swapaxes(a, -1, -2)) + 0.2 * np.eye(n)

        return self._value(name, tuple(batch) + (n, n), make)

    def input(self, name, n, d=None, batch=()):
        if batch:
            return np.stack([self.input((name, i), n, d) for i in range(batch[0])], axis=0)
        if self.integers:
            # Different inputs: a kernel matrix is invertible.
            values = lambda r: r.permutation(60)[:n] - 30
            if d is None:
                return self._value(name, (n,), values)
            return self._value(name, (n, d), lambda r: np.stack([values(r) for _ in range(d)], axis=1))
        if d is None:
            return self._value(name, (n,), lambda r: r.randn(n) * 1.5)
        return self._value(name, (n, d), lambda r: r.randn(n, d) * 1.5)

    def column(self, name, n):
        return self.mat(name, n, 1)

    def _fn(self, name, x, d):
        r = self._rng("fn", name, x.shape[-1], d)
        w, b = r.randn(x.shape[-1], d) * 0.5, r.randn(d)
        return np.sin(x @ w + b) + 0.3 * np.cos(1.7 * x @ w)

    def fn(self, name, d=1):
        def f(x):
            if np.ndim(x) == 1:
                v = self._fn(name, x[:, None], d)
                return v[:, 0] if d == 1 else v
            return self._fn(name, x, d)

        return f

    def apply(self, name, x, d=1):
        return self._fn(name, self.col(x), d)

    def mask(self, name, *ns):
        parts = [np.zeros(0, dtype=bool)]
        for i, n in enumerate(ns):
            if n == 0:
                continue
            if n == 1:
                mode = self.choose(f"{name} block {i}", "all", "none")
            else:
                mode = self.choose(f"{name} block {i}", "some", "all", "none", "single")
            m = np.full(n, mode == "all")
            if mode in ("some", "single"):
                k = 1 if mode == "single" else self.rng.randint(1, n)
                m[self.rng.permutation(n)[:k]] = True
            parts.append(m)
        return np.concatenate(parts)

    def selection(self, mask):
        return np.eye(len(mask))[mask]

    def missing(self, y, mask):
        y = np.array(y, dtype=float)
        y[~mask] = np.nan
        return y

    def state(self, name):
        return np.random.RandomState(self._rng("state", name).randint(2**31))

    def reshaped(self, x, n, m):
        return np.reshape(x, (n, m)) if np.size(x) == n * m else x

    def draws(self, label, f, num, source="state"):
        from lab import B

        kind = _ValueDraws if self.choose("random states", "advanced in place", "values") == "values" else _Draws
        if source == "global":
            if kind is _Draws:
                B.set_random_seed(7)
                state = np.random.RandomState(7)
            else:
                state = kind(None)
                B.set_global_random_state(state)
            try:
                x, again = self.col(f(None)), self.col(f(None))
            finally:
                _ValueDraws.current = None
            state, y = f(state)
            _, yagain = f(state)
            self.eq(label + ": draws are from the random state", x, self.col(y))
            self.eq(label + ": draws are new", again, self.col(yagain))
        # The function is affine in the draws: recover it from its values.
        zero = kind({})
        new, x = f(zero)
        if kind is _Draws:
            self.true(label + ": the state is returned", new is zero)
        mean = x = self.col(x)
        count = new.count
        n = x.shape[0]
        cov = np.zeros((n * num, n * num))
        for i in range(count):
            d = (self.col(f(kind({i: 1.0}))[1]) - x).T.reshape(-1, 1)
            cov = cov + d @ d.T
        self.eq(label + ": columns have equal means", x, np.repeat(x[:, :1], num, axis=1))
        self.eq(label + ": columns are independent", cov, np.kron(np.eye(num), cov[:n, :n]))
        if source == "state":
            state = np.random.RandomState(7) if kind is _Draws else kind(None)
            np.random.seed(5)
            state, x = f(state)
            g = np.random.get_state()
            np.random.seed(5)
            self.true(label + ": draws are from the random state", str(g) == str(np.random.get_state()))
            if count:
                self.true(label + ": draws are new", not np.allclose(self.col(x), self.col(f(state)[1])) or not np.any(cov))
        return mean[:, :1], cov[:n, :n]

    def col(self, x):
        x = np.asarray(_flat(x), dtype=float)
        return x.reshape(1, 1) if x.ndim == 0 else (x[:, None] if x.ndim == 1 else x)

    def matrix(self, x):
        from matrix import Dense

        return Dense(x)

    def feat(self, name, x):
        from lab import B

        dims = []
        while name.startswith("∂"):
            dims.append(int(name[1]))
            name = name[2:]
        r = self._rng("feat", name, x.shape[-1])
        w, b = r.randn(x.shape[-1], 24) * 1.5, r.randn(24) * 2
        c = 1.0
        for i in dims:
            c = c * w[i]
        z = B.matmul(x, w) + b + len(dims) * np.pi / 2
        return B.sin(z) * c / 3

    def _in(self, x):
        from lab import B

        if type(x).__module__.startswith("tensorflow"):
            return x if B.rank(x) == 2 else x[:, None]
        return self.col(x)

    def K(self, a, b, x, y):
        from lab import B

        x, y = self._in(x), self._in(y)
        if self.zero_kernel(a, b):
            return self.zeros(x.shape[-2], y.shape[-2])
        return B.matmul(self.feat(a, x), self.feat(b, y), tr_b=True)

    def M(self, a, x):
        from lab import B

        x = self._in(x)
        dims = ""
        while a.startswith("∂"):
            dims, a = dims + a[1], a[2:]
        if a in self.zero_means:
            return np.zeros((x.shape[-2], 1))
        r = self._rng("fn", "m" + a, x.shape[-1], 1)
        w, b = r.randn(x.shape[-1], 1) * 0.5, r.randn(1)
        c1 = c2 = 1.0
        for i in dims:
            c1, c2 = c1 * w[int(i), 0], c2 * 1.7 * w[int(i), 0]
        s = len(dims) * np.pi / 2
        return c1 * B.sin(B.matmul(x, w) + b + s) + 0.3 * c2 * B.cos(1.7 * B.matmul(x, w) + s)

    def tensor(self, x):
        """A tensor of TensorFlow."""
        import lab.tensorflow  # noqa
        import mlkernels.tensorflow  # noqa
        import stheno.tensorflow  # noqa
        import tensorflow as tf

        return tf.constant(x)

    def columns(self, x, dims):
        return self.col(x)[..., list(dims)]

    def diag(self, x):
        x = _flat(x)
        if not isinstance(x, np.ndarray):
            from lab import B

            return B.diag_extract(x)[..., None]
        return np.diagonal(x, axis1=-2, axis2=-1)[..., None].copy()

    def dg(self, x):
        x = self.col(x)
        return x * np.eye(x.shape[-2])

    def T(self, x):
        return np.swapaxes(self.col(x), -1, -2)

    def inv(self, x):
        x = self.col(x)
        # Concrete executions are only meaningful for well-conditioned data.
        if x.shape[-1] and np.max(np.linalg.cond(x)) > 1e6:
            raise PathEnd
        return np.linalg.inv(x)

    def chol(self, x):
        return np.linalg.cholesky(self.col(x))

    def root(self, x):
        u, s, v = np.linalg.svd(self.col(x))
        return (u * np.sqrt(s)[..., None, :]) @ v

    def logdet(self, x):
        return np.linalg.slogdet(self.col(x))[1]

    def trace(self, x):
        return np.trace(self.col(x), axis1=-2, axis2=-1)

    def eye(self, n):
        return np.eye(n)

    def zeros(self, n, m):
        return np.zeros((n, m))

    def ones(self, n, m):
        return np.ones((n, m))

    def had(self, x, y):
        return self.col(x) * self.col(y)

    def sqrt(self, x):
        return np.sqrt(x)

    def lowrank_inv(self, N, U, K):
        return self.inv(N + U @ self.inv(K) @ self.T(U))

    def lowrank_logdet(self, N, U, K):
        return self.logdet(N + U @ self.inv(K) @ self.T(U))

    def log2pi(self):
        return np.log(2 * np.pi)

    def scalar(self, x):
        x = self.col(x)
        return float(x[0, 0]) if x.ndim == 2 else x[..., 0, 0]

    def logdet_batch(self, x):
        return np.linalg.slogdet(x)[1]

    def per_batch(self, x, n):
        return np.asarray(x)[..., None, None] * np.ones((n, 1))

    def zeros_batch(self, b, n, m):
        return np.zeros((b, n, m))

    def unbatched(self, x):
        """The elements of a batch below one another."""
        x = np.asarray(x)
        return x.reshape(-1, x.shape[-1])

    def batch_diagonal(self, x):
        """The elements of a batch on the diagonal."""
        b, n, m = x.shape
        r = np.zeros((b, n, b, m))
        r[np.arange(b), :, np.arange(b), :] = x
        return r.reshape(b * n, b * m)

    def number(self, n):
        return float(n)

    def as_column(self, x):
        return np.asarray(_flat(x))[..., None]

    def as_vector(self, x):
        return np.asarray(_flat(x))[..., 0]

    def quiet(self):
        q = object.__new__(type(self))
        q.__dict__.update(self.__dict__)
        q.eq = q.true = lambda *a, **k: None
        return q

    def blocks(self, rows):
        return self._concat([self._concat(r, -1) for r in rows], -2)

    def stack(self, *xs):
        return self._concat(xs, -2)

    def _concat(self, xs, axis):
        xs = [self.col(x) for x in xs]
        batch = np.broadcast_shapes(*[x.shape[:-2] for x in xs])
        return np.concatenate([np.broadcast_to(x, batch + x.shape[-2:]) for x in xs], axis=axis)

    def nonneg(self, x):
        pass

    # Obligations.
    def _fail(self, name, detail):
        self.failures.append((f"{self.contract_name}: {name}", detail))

    def true(self, name, cond, detail=""):
        self.checked += 1
        if not cond:
            self._fail(name, detail)

    def raises(self, name, exc, f):
        self.checked += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            self._fail(name, f"raised {type(e).__name__}: {e}")
        else:
            self._fail(name, f"did not raise {exc}")

    def eq(self, name, got, want, rank=None):
        self.checked += 1
        try:
            got, want = np.asarray(_flat(got), dtype=float), np.asarray(_flat(want), dtype=float)
        except Exception as e:
            self._fail(name, f"not an array: {e}")
            return
        if abs(got.ndim - want.ndim) == 1 and max(got.ndim, want.ndim) >= 3:
            # All elements of a batch are the same.
            got, want = np.broadcast_arrays(got, want) if got.shape[-2:] == want.shape[-2:] else (got, want)
        if got.shape != want.shape:
            self._fail(name, f"shape {got.shape} instead of {want.shape}")
            return
        if got.size == 0:
            return
        if np.any(np.isnan(got)):
            self._fail(name, f"got NaN: {got.tolist()} instead of {want.tolist()}")
            return
        err = np.max(np.abs(got - want)) / (1 + np.max(np.abs(want)))
        if err > self.tol:
            self._fail(name, f"got {got.tolist()}\nwant {want.tolist()}")


class _Draws(np.random.RandomState):
    """Random state with given standard normal draws: zero except at some positions."""

    def __init__(self, values):
        super().__init__(0)
        self.given, self.count = values, 0

    def randn(self, *shape):
        n = int(np.prod(shape))
        r = np.zeros(n)
        for i, v in self.given.items():
            if self.count <= i < self.count + n:
                r[i - self.count] = v
        self.count += n
        return r.reshape(shape) if shape else float(r[0])

    def standard_normal(self, size=None):
        return self.randn(*(size if isinstance(size, tuple) else () if size is None else (size,)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


class _ValueDraws(_Draws):
    """The same, but a value that is never changed, like the random states of JAX.  `None` is for random draws."""

    current = None
    installed = False

    def __init__(self, values, count=0):
        super().__init__(values or {})
        self.random, self.count = values is None, count

    def drawn(self, shape):
        new = _ValueDraws(None if self.random else self.given, self.count)
        if self.random:
            x = np.random.RandomState(1000 + self.count).randn(*shape)
            new.count += int(np.prod(shape))
        else:
            x = new.randn(*shape)
        return new, x

    @classmethod
    def install(cls):
        """Let LAB draw from such states."""
        from lab import B, dispatch

        if cls.installed:
            return
        cls.installed = True

        def randn(state: cls, dtype: B.NPDType, *shape: B.Int):
            return state.drawn(shape)

        def set_global_random_state(state: cls):
            cls.current = state

        def global_random_state(_: B.NPDType):
            return np.random.mtrand._rand if cls.current is None else cls.current

        dispatch(precedence=1)(randn)
        dispatch(precedence=1)(set_global_random_state)
        dispatch(precedence=1)(global_random_state)


def run_numeric(ct, seed, script=None, sizes=None, tier="quick"):
    """One concrete execution of a contract.

    Returns:
        tuple: The world and an exception that was raised or `None`.
    """
    w = NumWorld(seed, script, ct.name)
    w.sizes = sizes or {}
    w.tier = tier
    w.integers = seed % 4 == 3 and not ct.options.get("floats")
    try:
        ct.run(w)
    except PathEnd:
        w.skipped = True
    except np.linalg.LinAlgError as e:
        w.skipped = True
    except Exception as e:
        w.failures.append((f"{ct.name}: no exception", f"raised {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
    return w
