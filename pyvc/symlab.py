"""A backend of LAB for symbolic matrices.

The array library LAB dispatches on the type of its arguments.  This module is a backend for `SymArr`, a matrix
with symbolic dimensions whose value is a normal form of `terms`.  The real code of stheno, and the real code of
the libraries it builds on (matrix, mlkernels, algebra, plum), runs unmodified on these arrays; only the
primitives of LAB (addition, products, Cholesky factors, concatenation, ...) are replaced by their contracts.
"""
import operator
import sys
from fractions import Fraction
from importlib.abc import Loader, MetaPathFinder
from importlib.machinery import PathFinder
from typing import Union

import numpy as np

from . import terms as t
from .core import SymBool, SymInt, Unsupported, ctx, ile, isame

__all__ = ["SymArr", "SymMask", "SymState", "install", "is_arraylike"]


def is_arraylike(x):
    return isinstance(x, (SymArr, SymMask, np.ndarray)) or hasattr(x, "mat") or hasattr(x, "diag")


def dim_out(d):
    """Dimensions are Python integers where they are constant."""
    d = SymInt.of(d)
    return d.value if d.is_const else d


def same(a, b):
    """Equality of dimensions; explores both outcomes if it is undecided."""
    a, b = SymInt.of(a), SymInt.of(b)
    d = a - b
    if d.is_const:
        return d.value == 0
    if ctx().entails(d.z3() == 0):
        return True
    return bool(SymBool(d.z3() == 0, f"{a} == {b}"))


class SymArr:
    """Symbolic array.

    Attributes:
        p (Poly): Value.  A vector is stored as a column.
        core (int): Rank without the batch dimensions: 0, 1, or 2.
        batch (tuple): Batch dimensions.  The value is that of an arbitrary element of the batch.
        nan (SymMask or None or str): Which rows are missing; `"poison"` if a computation involved missing values.
    """

    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, p, core=2, batch=(), nan=None):
        self.p, self.core, self.batch, self.nan = p, core, tuple(batch), nan
        if core == 0 and not (p.n == t.ONE and p.m == t.ONE):
            raise Unsupported(f"not a scalar: {p.shape}")
        if core == 1 and p.m != t.ONE:
            raise Unsupported(f"not a vector: {p.shape}")

    @property
    def shape(self):
        n, m = self.p.shape
        core = ((), (n,), (n, m))[self.core]
        return tuple(map(dim_out, self.batch + core))

    @property
    def ndim(self):
        return len(self.batch) + self.core

    @property
    def dtype(self):
        return np.dtype(np.float64)

    @property
    def T(self):
        return _transpose(self)

    def __repr__(self):
        return f"<SymArr {self.shape}: {self.p!r}>"

    def __len__(self):
        s = self.shape
        if not s:
            raise TypeError("len() of unsized object")
        return operator.index(s[0]) if isinstance(s[0], int) else s[0].__index__()

    def __iter__(self):
        raise Unsupported("iteration over a symbolic array")

    def __bool__(self):
        if self.core == 0 and not self.batch:
            s = self.p.as_scalar()
            if s.is_const:
                return s.value != 0
        raise Unsupported("truth value of a symbolic array")

    def __float__(self):
        if self.core == 0 and not self.batch:
            s = self.p.as_scalar()
            if s.is_const:
                return float(s.value)
        raise Unsupported("conversion of a symbolic array to a number")

    def __getitem__(self, item):
        return _getitem(self, item)

    def __array__(self, *args, **kw_args):
        raise Unsupported("conversion of a symbolic array to a NumPy array")


def _op(name, reverse=False):
    def method(self, other):
        import lab as B

        if not _is_operand(other):
            return NotImplemented
        f = getattr(B, name)
        return f(other, self) if reverse else f(self, other)

    return method


def _is_operand(x):
    return isinstance(x, (SymArr, SymInt, int, float, np.ndarray, np.number, np.bool_)) or (
        type(x).__name__ == "Dimension"
    )


for _name, _f in [("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "divide"), ("pow", "power")]:
    setattr(SymArr, f"__{_name}__", _op(_f))
    setattr(SymArr, f"__r{_name}__", _op(_f, reverse=True))
SymArr.__neg__ = lambda self: SymArr(-self.p, self.core, self.batch, _poison(self))
SymArr.__matmul__ = _op("matmul")
SymArr.__rmatmul__ = _op("matmul", reverse=True)


def _cmp(opname):
    def method(self, other):
        if not _is_operand(other):
            return NotImplemented
        a, b = lift(self), lift(other)
        if a.core == 0 and b.core == 0 and not a.batch and not b.batch:
            d = (a.p - b.p).as_scalar()
            if d.is_const:
                return getattr(operator, opname)(d.value, 0)
        raise Unsupported("comparison of symbolic arrays")

    return method


for _name in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(SymArr, f"__{_name}__", _cmp(_name))
SymArr.__hash__ = lambda self: id(self)


def _poison(*xs):
    return "poison" if any(x.nan is not None for x in xs) else None


def lift(x):
    """Convert to a symbolic array."""
    if isinstance(x, SymArr):
        return x
    if type(x).__name__ == "Dimension":
        x = x.dim
    if isinstance(x, SymInt):
        return SymArr(t.Poly.scalar(t.SP.dim(x.key)), 0)
    if isinstance(x, (bool, np.bool_, int, float, np.number, Fraction)):
        return SymArr(t.Poly.scalar(t.SP.const(x)), 0)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            raise Unsupported("array of objects")
        if x.ndim == 0:
            return SymArr(t.Poly.scalar(t.SP.const(x.item())), 0)
        if x.ndim > 2:
            rows = x.reshape(-1, *x.shape[-2:])
            if len(rows) == 0 or np.any(rows != rows[:1]):
                raise Unsupported("constant array of rank more than two")
            return SymArr(lift(rows[0]).p, 2, tuple(SymInt.of(s) for s in x.shape[:-2]))
        y = x.reshape(-1, 1) if x.ndim == 1 else x
        n, m = y.shape
        if np.any(np.isnan(y)):
            raise Unsupported("constant NaN")
        if y.size == 0 or np.all(y == y.flat[0]):
            c = 0 if y.size == 0 else y.flat[0].item()
            return SymArr(t.Poly.const(c, n, m), x.ndim)
        if n == m and np.all(y == np.diag(np.diag(y))) and np.all(np.diag(y) == y[0, 0]):
            return SymArr(t.Poly.eye(n).scale(t.SP.const(y[0, 0].item())), x.ndim)
        if y.size > 64:
            raise Unsupported("large constant array")
        p = t.Poly.zeros(n, m)
        for i in range(n):
            for j in range(m):
                if y[i, j] != 0:
                    e, f = _unit(i, n), _unit(j, m)
                    p = p + (e @ f.T).scale(t.SP.const(y[i, j].item()))
        return SymArr(p, x.ndim)
    raise Unsupported(f"cannot convert {type(x)} to a symbolic array")


def _unit(i, n):
    return _embed(SymInt.const(i), SymInt.const(1), SymInt.of(n))


def _embed(off, n, N):
    """Embedding of `n` rows at offset `off` into `N` rows."""
    if isame(n, N):
        return t.Poly.eye(N)
    return t.Poly.factor(("E", SymInt.of(off).key, SymInt.of(n).key, SymInt.of(N).key, False))


def _ones(n, m):
    return t.Poly.const(1, n, m)


# ---------------------------------------------------------------------------------------------
# Broadcasting.


def _batches(*xs):
    batch = ()
    for x in xs:
        if x.batch:
            if batch and not (len(batch) == len(x.batch) and all(same(a, b) for a, b in zip(batch, x.batch))):
                if len(batch) == len(x.batch) and all(same(a, b) or same(b, 1) for a, b in zip(batch, x.batch)):
                    continue
                raise Unsupported("broadcasting of batch dimensions")
            batch = x.batch
    return batch


def _broadcast_dim(a, b):
    """Common dimension of `a` and `b`: (dimension, expand a, expand b)."""
    if same(a, b):
        return a, False, False
    if same(a, 1):
        return b, True, False
    if same(b, 1):
        return a, False, True
    raise ValueError(f"operands could not be broadcast together with dimensions {a} and {b}")


def rows_as_batch(a):
    """A matrix with equal rows as a batch of vectors."""
    a = lift(a)
    if a.core != 2 or a.batch or a.nan is not None:
        raise Unsupported("matrix as a batch of vectors")
    n, m = a.p.shape
    p = a.p
    if not isame(n, 1):
        f = ("one", p.n, False)
        if not all(k and k[0] == f for k in p.t):
            raise Unsupported("matrix with different rows as a batch of vectors")
        p = t.Poly(t.ONE, p.m, {k[1:]: c for k, c in p.t.items()})
    return SymArr(p.T, 1, (n,))


def _align(a, b):
    """Broadcast two arrays to a common shape.  Scalars are left alone."""
    a, b = lift(a), lift(b)
    if a.batch and a.core == 1 and b.core == 2 and not b.batch:
        b = rows_as_batch(b)
    if b.batch and b.core == 1 and a.core == 2 and not a.batch:
        a = rows_as_batch(a)
    batch = _batches(a, b)
    if (a.batch or b.batch) and a.core != b.core:
        # Scalars and vectors without a batch are fine.
        ok = (a.core < b.core and not a.batch) or (b.core < a.core and not b.batch)
        if not ok:
            raise Unsupported("broadcasting of batches of different ranks")
    core = max(a.core, b.core)
    if a.core == 0 or b.core == 0:
        return a, b, core, batch
    pa = a.p.T if a.core == 1 and core == 2 else a.p
    pb = b.p.T if b.core == 1 and core == 2 else b.p
    n, xa, xb = _broadcast_dim(*(q.shape[0] for q in (pa, pb)))
    if xa:
        pa = _ones(n, 1) @ pa
    if xb:
        pb = _ones(n, 1) @ pb
    m, xa, xb = _broadcast_dim(*(q.shape[1] for q in (pa, pb)))
    if xa:
        pa = pa @ _ones(1, m)
    if xb:
        pb = pb @ _ones(1, m)
    return SymArr(pa, core, a.batch), SymArr(pb, core, b.batch), core, batch


def _expand_like(a, b):
    """Expand the scalar `a` to the shape of `b`."""
    return _ones(*b.p.shape).scale(a.p.as_scalar())


def add(a, b, sign=1):
    a, b = lift(a), lift(b)
    nan = _poison(a, b)
    a, b, core, batch = _align(a, b)
    if a.core == 0 and b.core > 0:
        pa, pb = _expand_like(a, b), b.p
    elif b.core == 0 and a.core > 0:
        pa, pb = a.p, _expand_like(b, a)
    else:
        pa, pb = a.p, b.p
    return SymArr(pa + pb if sign == 1 else pa - pb, core, batch, nan)


def multiply(a, b):
    a, b = lift(a), lift(b)
    nan = _poison(a, b)
    a, b, core, batch = _align(a, b)
    if a.core == 0:
        p = b.p.scale(a.p.as_scalar())
    elif b.core == 0:
        p = a.p.scale(b.p.as_scalar())
    else:
        p = t.hadamard(a.p, b.p)
    return SymArr(p, core, batch, nan)


def elementwise(name, a):
    a = lift(a)
    return SymArr(t.elementwise(name, [a.p]), a.core, a.batch, _poison(a))


def divide(a, b):
    b = lift(b)
    if b.p.zero and not t.dzero(b.p.n) and not t.dzero(b.p.m):
        raise ZeroDivisionError("division by zero")
    return multiply(a, elementwise("recip", b))


def power(a, b):
    a = lift(a)
    b = lift(b)
    if b.core != 0:
        raise Unsupported("elementwise powers")
    e = b.p.as_scalar()
    if not e.is_const:
        raise Unsupported("symbolic power")
    e = e.value
    if e == Fraction(1, 2):
        return elementwise("sqrt", a)
    if e.denominator != 1:
        raise Unsupported("fractional power")
    e = int(e)
    if e == 0:
        return SymArr(_ones(*a.p.shape), a.core, a.batch, a.nan)
    r = a
    for _ in range(abs(e) - 1):
        r = multiply(r, a)
    if e < 0:
        r = elementwise("recip", r)
    return SymArr(r.p, r.core, r.batch, _poison(a))


def _binary_el(name, a, b):
    a, b = lift(a), lift(b)
    nan = _poison(a, b)
    a, b, core, batch = _align(a, b)
    pa, pb = a.p, b.p
    if a.core == 0 and b.core > 0:
        pa = _expand_like(a, b)
    elif b.core == 0 and a.core > 0:
        pb = _expand_like(b, a)
    if pa.key == pb.key:
        return SymArr(pa, core, batch, nan)
    nonneg = getattr(ctx(), "nonneg", set())
    for x, y in ((pa, pb), (pb, pa)):
        if y.zero and (x.key in nonneg or (x.n == t.ONE and x.m == t.ONE and x.as_scalar().key in nonneg)):
            return SymArr(x if name == "max" else y, core, batch, nan)
    if pa.n == t.ONE and pa.m == t.ONE:
        x, y = pa.as_scalar(), pb.as_scalar()
        if x.is_const and y.is_const:
            v = max(x.value, y.value) if name == "max" else min(x.value, y.value)
            return SymArr(t.Poly.scalar(t.SP.const(v)), core, batch, nan)
    ps = sorted([pa, pb], key=lambda q: repr(q.key))
    return SymArr(t.elementwise(name, ps), core, batch, nan)


# ---------------------------------------------------------------------------------------------
# Linear algebra.


def _transpose(a, perm=None):
    a = lift(a)
    if perm is not None:
        if a.core == 2 and not a.batch and tuple(perm) == (1, 0):
            return _transpose(a)
        if tuple(perm) == tuple(range(a.ndim)):
            return a
        if a.core == 2 and tuple(perm) == tuple(range(a.ndim - 2)) + (a.ndim - 1, a.ndim - 2):
            return _transpose(a)
        raise Unsupported("general permutation of axes")
    if a.core == 0:
        return a
    if a.core == 1:
        if a.batch:
            raise Unsupported("transposition of a batch of vectors")
        return SymArr(a.p.T, 2, (), a.nan)
    return SymArr(a.p.T, 2, a.batch, _poison(a))


def matmul(a, b, tr_a=False, tr_b=False):
    a, b = lift(a), lift(b)
    nan = _poison(a, b)
    a = _transpose(a) if tr_a else a
    b = _transpose(b) if tr_b else b
    if a.core == 0 or b.core == 0:
        raise ValueError("matmul: input operand does not have enough dimensions")
    batch = _batches(a, b)
    if (a.core == 1 or b.core == 1) and batch:
        raise Unsupported("products of batches of vectors")
    pa = a.p.T if a.core == 1 else a.p
    pb = b.p
    if not same(*(pa.shape[1], pb.shape[0])):
        raise ValueError(f"matmul: dimensions {pa.shape} and {pb.shape} do not match")
    p = pa @ pb
    if a.core == 1 and b.core == 1:
        return SymArr(p, 0, (), nan)
    if a.core == 1:
        return SymArr(p.T, 1, (), nan)
    if b.core == 1:
        return SymArr(p, 1, (), nan)
    return SymArr(p, 2, batch, nan)


def _square(a):
    a = lift(a)
    if a.core != 2:
        raise ValueError("matrix must be at least two-dimensional")
    if not same(*a.p.shape):
        raise ValueError("matrix must be square")
    return a


def inv(a):
    a = _square(a)
    return SymArr(t.inverse(a.p), 2, a.batch, _poison(a))


def cholesky(a):
    a = _square(a)
    return SymArr(t.cholesky(a.p), 2, a.batch, _poison(a))


def root(a):
    a = _square(a)
    return SymArr(t.root(a.p), 2, a.batch, _poison(a))


def logdet(a):
    a = _square(a)
    return SymArr(t.Poly.scalar(t.logdet(a.p)), 0, a.batch, _poison(a))


def trace(a):
    a = lift(a)
    if a.core != 2:
        raise ValueError("trace of a non-matrix")
    if not same(*a.p.shape):
        raise Unsupported("trace of a rectangular matrix")
    return SymArr(t.Poly.scalar(t.trace(a.p)), 0, a.batch, _poison(a))


def solve(a, b):
    b = lift(b)
    return matmul(inv(a), b)


def _triangular_kind(p):
    """Whether `p` is known to be diagonal ("d"), lower ("l") or upper ("u") triangular."""
    if all(t._is_diag_mono(m) for m in p.t):
        return "d"
    kinds = set()
    for m in p.t:
        k = "d"
        for f in m:
            if f[0] == "D":
                kk = "d"
            elif f[0] == "ch":
                kk = "u" if f[3] else "l"
            else:
                return None
            if k == "d":
                k = kk
            elif kk != "d" and kk != k:
                return None
        kinds.add(k)
    kinds.discard("d")
    return kinds.pop() if len(kinds) == 1 else None


def triangular_solve(a, b, lower_a=True):
    a, b = _square(a), lift(b)
    if a.p.n != t.ONE:
        k = _triangular_kind(a.p)
        if k is None or (k == "u" and lower_a) or (k == "l" and not lower_a):
            # Only the triangle is used.
            a = SymArr(t.elementwise("tril" if lower_a else "triu", [a.p]), 2, a.batch, a.nan)
    return matmul(inv(a), b)


def cholesky_solve(a, b):
    return triangular_solve(_transpose(a), triangular_solve(a, b, True), False)


def sum_(a, axis=None, squeeze=True):
    a = lift(a)
    nan = _poison(a)
    if a.core == 0 and not a.batch:
        return a
    n, m = a.p.shape
    rank = a.ndim
    if axis is None:
        if a.batch:
            raise Unsupported("sum over a batch")
        p = _ones(1, n) @ a.p @ _ones(m, 1)
        if squeeze:
            return SymArr(p, 0, (), nan)
        return SymArr(p, a.core, (), nan)
    axis = SymInt.of(axis).__index__()
    if axis < 0:
        axis += rank
    axis -= len(a.batch)
    if axis < 0:
        raise Unsupported("sum over a batch dimension")
    if a.core == 1:
        p = _ones(1, n) @ a.p
        return SymArr(p, 0 if squeeze else 1, a.batch, nan)
    if axis == 0:
        p = _ones(1, n) @ a.p
        return SymArr(p.T, 1, a.batch, nan) if squeeze else SymArr(p, 2, a.batch, nan)
    if axis == 1:
        p = a.p @ _ones(m, 1)
        return SymArr(p, 1, a.batch, nan) if squeeze else SymArr(p, 2, a.batch, nan)
    raise ValueError("axis out of bounds")


def mean_(a, axis=None, squeeze=True):
    a = lift(a)
    s = sum_(a, axis, squeeze)
    if a.core == 0:
        return s
    n, m = a.p.shape
    if axis is None:
        c = n * m
    else:
        k = SymInt.of(axis).__index__()
        k = k + a.ndim if k < 0 else k
        c = (n, m)[k - len(a.batch)]
    return SymArr(s.p.scale(t.SP.dim(SymInt.of(c).key).inv()), s.core, s.batch, s.nan)


def diag_extract(a):
    a = lift(a)
    if a.core != 2:
        raise ValueError("diagonal of a non-matrix")
    n, m = a.p.shape
    if not same(n, m):
        raise Unsupported("diagonal of a rectangular matrix")
    return SymArr(t.dcol(a.p), 1, a.batch, _poison(a))


def diag_construct(a):
    a = lift(a)
    if a.core == 0:
        raise ValueError("Input must have at least rank 1.")
    if a.core == 2:
        a = rows_as_batch(a)
    return SymArr(t.diagm(a.p), 2, a.batch, _poison(a))


def diag(a):
    a = lift(a)
    if a.batch:
        raise Unsupported("diag of a batch")
    if a.core == 1:
        return diag_construct(a)
    if a.core == 2:
        return diag_extract(a)
    raise ValueError("Input must be 1- or 2-d.")


# ---------------------------------------------------------------------------------------------
# Masks.


class SymMask:
    """Boolean vector made of segments of named masks: `(name, lo, hi)` or `(True or False, None, n)`."""

    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, segs, rank=1):
        self.segs = segs
        self.rank = rank

    @property
    def n(self):
        r = SymInt.const(0)
        for name, lo, hi in self.segs:
            r = r + (hi if isinstance(name, bool) else hi - lo)
        return r

    @property
    def shape(self):
        return (dim_out(self.n),) if self.rank == 1 else (dim_out(self.n), 1)

    @property
    def ndim(self):
        return self.rank

    @property
    def dtype(self):
        return np.dtype(bool)

    def __invert__(self):
        return SymMask(
            [
                ((not n) if isinstance(n, bool) else (n[1:] if n.startswith("!") else "!" + n), lo, hi)
                for n, lo, hi in self.segs
            ],
            self.rank,
        )

    def __repr__(self):
        return f"<SymMask {self.segs}>"

    def __bool__(self):
        raise Unsupported("truth value of a mask")

    def __iter__(self):
        raise Unsupported("iteration over a mask")

    def __getitem__(self, item):
        if item is Ellipsis:
            return self
        if isinstance(item, tuple):
            item = tuple(i for i in item if i is not Ellipsis)
            if self.rank == 2:
                if len(item) == 2 and item[1] == 0:
                    return SymMask(self.segs)[item[0]]
                if len(item) == 1:
                    return SymMask(SymMask(self.segs)[item[0]].segs, 2)
            elif len(item) == 1:
                return self[item[0]]
            raise Unsupported("indexing of a mask")
        if not isinstance(item, slice) or item.step not in (None, 1):
            raise Unsupported("indexing of a mask")
        lo, hi = _slice(item, self.n)
        return SymMask(self._cut(lo, hi), self.rank)

    def _cut(self, lo, hi):
        out, pos = [], SymInt.const(0)
        for name, a, b in self.segs:
            ln = b if isinstance(name, bool) else b - a
            s, e = pos, pos + ln
            x = _dmax(lo, s)
            y = _dmin(hi, e)
            if not ile(y, x):
                if isinstance(name, bool):
                    out.append((name, None, y - x))
                else:
                    out.append((name, a + (x - s), a + (y - s)))
            pos = e
        return out

    def counts(self):
        for name, lo, hi in self.segs:
            if isinstance(name, bool):
                yield (hi if name else SymInt.const(0)), hi
            else:
                yield t.I(t.mask_count(name, lo.key, hi.key)), hi - lo

    def count(self):
        r = SymInt.const(0)
        for c, _ in self.counts():
            r = r + c
        return r

    def all(self):
        return all(same(c, n) for c, n in self.counts())

    def any(self):
        return not all(same(c, 0) for c, _ in self.counts())

    def selection(self):
        """Selection matrix."""
        n, c = self.n, self.count()
        res = t.Poly.zeros(c, n)
        pos, off = SymInt.const(0), SymInt.const(0)
        for (name, lo, hi), (k, ln) in zip(self.segs, self.counts()):
            if isinstance(name, bool):
                s = t.Poly.eye(ln) if name else t.Poly.zeros(0, ln)
            elif isame(k, 0):
                s = t.Poly.zeros(0, ln)
            elif isame(k, ln):
                s = t.Poly.eye(ln)
            else:
                s = t.Poly.factor(("S", name, lo.key, hi.key, False))
            if not isame(k, 0):
                res = res + _embed(off, k, c) @ s @ _embed(pos, ln, n).T
            pos, off = pos + ln, off + k
        return res


def _dmax(a, b):
    if ile(a, b):
        return b
    if ile(b, a):
        return a
    raise Unsupported(f"cannot compare {a} and {b}")


def _dmin(a, b):
    if ile(a, b):
        return a
    if ile(b, a):
        return b
    raise Unsupported(f"cannot compare {a} and {b}")


def _slice(s, n):
    """Resolve a slice with NumPy's semantics: clip to the size."""
    n = SymInt.of(n)

    def resolve(x, default):
        if x is None:
            return default
        x = SymInt.of(x)
        if x.is_const and x.value < 0:
            x = _dmax(n + x, SymInt.const(0))
        return _dmin(x, n)

    lo = resolve(s.start, SymInt.const(0))
    hi = resolve(s.stop, n)
    return lo, _dmax(lo, hi)


# ---------------------------------------------------------------------------------------------
# Indexing.


def _nan_sel(nan, f):
    return f(nan) if isinstance(nan, SymMask) else nan


def _getitem(a, item):
    items = list(item) if isinstance(item, tuple) else [item]
    items = [i.dim if type(i).__name__ == "Dimension" else i for i in items]
    if any(isinstance(i, np.ndarray) and i.ndim > 1 for i in items):
        raise Unsupported("indexing by matrices")
    n_axes = sum(1 for i in items if i is not None and i is not Ellipsis)
    if n_axes > a.ndim:
        raise IndexError("too many indices for array")
    full = slice(None, None, None)
    if Ellipsis in [i for i in items if not isinstance(i, (SymArr, SymMask, np.ndarray, list))]:
        k = [j for j, i in enumerate(items) if i is Ellipsis][0]
        items = items[:k] + [full] * (a.ndim - n_axes) + items[k + 1 :]
    else:
        items = items + [full] * (a.ndim - n_axes)
    nb = len(a.batch)
    # Batch dimensions cannot be indexed.
    for _ in range(nb):
        i = items.pop(0)
        if not (isinstance(i, slice) and i == full):
            raise Unsupported("indexing of a batch dimension")
    p, nan = a.p, a.nan
    # A vector is a column: the second axis does not exist.
    out, axis, adv = [], 0, 0
    for i in items:
        if i is None:
            out.append("new")
            continue
        n = p.shape[axis]
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("strided slices")
            if i != full:
                lo, hi = _slice(i, n)
                e = _embed(lo, hi - lo, n) if not isame(lo, hi) else t.Poly.zeros(n, 0)
                p = e.T @ p if axis == 0 else p @ e
                if axis == 0:
                    nan = _nan_sel(nan, lambda m: m[i])
            out.append("keep")
        elif isinstance(i, (int, np.integer, SymInt)) and not isinstance(i, bool):
            j = SymInt.of(i)
            if j.is_const and j.value < 0:
                j = n + j
            if not ile(j + 1, n):
                if ile(n, j):
                    raise IndexError("index out of bounds")
                raise Unsupported("index that may be out of bounds")
            e = _embed(j, SymInt.const(1), n)
            p = e.T @ p if axis == 0 else p @ e
            if axis == 0 and isinstance(nan, SymMask):
                raise Unsupported("element of missing data")
            out.append("drop")
        elif isinstance(i, SymMask):
            if i.rank != 1:
                raise Unsupported("indexing by a matrix mask")
            if not same(i.n, n):
                raise IndexError("boolean index did not match indexed array")
            s = i.selection()
            p = s @ p if axis == 0 else p @ s.T
            if axis == 0:
                nan = _nan_mask_take(nan, i)
            adv += 1
            out.append("keep")
        elif isinstance(i, (list, np.ndarray)):
            i = np.array(i)
            if i.dtype == bool:
                if not same(len(i), n):
                    raise IndexError("boolean index did not match indexed array")
                i = np.nonzero(i)[0]
            N = SymInt.of(n)
            idx = []
            for k in i.tolist():
                if not N.is_const:
                    raise Unsupported("indexing of a symbolic dimension by constants")
                if not -N.value <= k < N.value:
                    raise IndexError("index out of bounds")
                idx.append(k % N.value)
            r = _columns(idx, N.value)
            p = r.T @ p if axis == 0 else p @ r
            if axis == 0 and isinstance(nan, SymMask):
                raise Unsupported("indexing of missing data")
            adv += 1
            out.append("keep")
        else:
            raise Unsupported(f"indexing by {type(i)}")
        axis += 1
    if adv > 1:
        raise Unsupported("several advanced indices")
    # Assemble the resulting rank.
    axes = [o for o in out if o != "drop"]
    if a.core == 0:
        core = len(axes)
        if core > 2:
            raise Unsupported("arrays of rank more than two")
        return SymArr(p, core, a.batch, nan)
    if a.core == 1:
        if axes == []:
            return SymArr(p, 0, a.batch, nan)
        if axes == ["keep"]:
            return SymArr(p, 1, a.batch, nan)
        if axes == ["keep", "new"]:
            return SymArr(p, 2, a.batch, nan)
        if axes == ["new", "keep"]:
            if isinstance(nan, SymMask):
                nan = "poison"
            return SymArr(p.T, 2, a.batch, nan)
        if axes == ["new"]:
            return SymArr(p, 1, a.batch, nan)
        raise Unsupported("arrays of rank more than two")
    drops = [j for j, o in enumerate([o for o in out if o != "new"]) if o == "drop"]
    if len(axes) > 2:
        raise Unsupported("arrays of rank more than two")
    if not drops:
        return SymArr(p, 2, a.batch, nan)
    if len(drops) == 2:
        return SymArr(p, len(axes), a.batch, nan)
    v = p.T if drops == [0] else p
    if drops == [0] and isinstance(nan, SymMask):
        nan = "poison"
    return _getitem_new(SymArr(v, 1, a.batch, nan), axes)


def _getitem_new(v, axes):
    if axes == ["keep"]:
        return v
    if axes == ["keep", "new"]:
        return SymArr(v.p, 2, v.batch, v.nan)
    if axes == ["new", "keep"]:
        return SymArr(v.p.T, 2, v.batch, _poison(v))
    raise Unsupported("indexing")


def _columns(idx, d):
    """Selection of columns as a matrix."""
    if idx == list(range(d)):
        return t.Poly.eye(d)
    k = len(idx)
    if k == 0:
        return t.Poly.zeros(d, 0)
    if idx == list(range(idx[0], idx[0] + k)):
        return _embed(idx[0], k, d)
    p = t.Poly.zeros(d, k)
    for j, i in enumerate(idx):
        p = p + _unit(i, d) @ _unit(j, k).T
    return p


def _nan_mask_take(nan, mask):
    """Missing values after selecting by a mask."""
    if not isinstance(nan, SymMask):
        return nan
    # Only exact complements are supported: no missing values are left.
    inv_ = (~nan).segs
    a = [(n, lo, hi) for n, lo, hi in inv_]
    b = list(mask.segs)
    if len(a) == len(b) and all(
        x[0] == y[0]
        and (x[1] is None) == (y[1] is None)
        and (x[1] is None or isame(x[1], y[1]))
        and isame(x[2], y[2])
        for x, y in zip(a, b)
    ):
        return None
    # Segments where nothing is missing or nothing is selected.
    out = []
    for (c, _), k in zip(nan.counts(), nan.segs):
        if not isame(c, 0):
            return "poison"
    return None


# ---------------------------------------------------------------------------------------------
# Shapes.


def expand_dims(a, axis=0):
    a = lift(a)
    axis = SymInt.of(axis).__index__()
    if axis < 0:
        axis += a.ndim + 1
    k = axis - len(a.batch)
    if k < 0:
        if a.batch:
            raise Unsupported("new batch dimensions")
    if a.core == 0:
        return SymArr(a.p, 1, a.batch, a.nan)
    if a.core == 1:
        return SymArr(a.p, 2, a.batch, a.nan) if k == 1 else SymArr(a.p.T, 2, a.batch, _poison(a))
    if k in (1, 2) and not a.batch:
        return expand_dims(rows_as_batch(a), axis)
    raise Unsupported("arrays of rank more than two")


def squeeze(a, axis=None):
    a = lift(a)
    if axis is None:
        if a.batch:
            raise Unsupported("squeezing of batches")
        if a.core == 0:
            return a
        if a.core == 1:
            return SymArr(a.p, 0, (), a.nan) if same(a.p.shape[0], 1) else a
        n1, m1 = (same(d, 1) for d in a.p.shape)
        if n1 and m1:
            return SymArr(a.p, 0, (), a.nan)
        if m1:
            return SymArr(a.p, 1, (), a.nan)
        if n1:
            return SymArr(a.p.T, 1, (), _poison(a))
        return a
    axis = SymInt.of(axis).__index__()
    if axis < 0:
        axis += a.ndim
    if not 0 <= axis < a.ndim:
        raise ValueError("axis out of bounds")
    k = axis - len(a.batch)
    if k < 0:
        raise Unsupported("squeezing of batches")
    if not same(a.p.shape[k], 1):
        raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    if a.core == 1:
        return SymArr(a.p, 0, a.batch, a.nan)
    return SymArr(a.p, 1, a.batch, a.nan) if k == 1 else SymArr(a.p.T, 1, a.batch, _poison(a))


def broadcast_to(a, *shape):
    a = lift(a)
    shape = tuple(SymInt.of(s) for s in shape)
    nb = len(shape) - 2
    if a.batch or len(shape) > 2:
        if a.core == 2 and nb >= 1:
            batch = shape[:nb]
            if a.batch and not all(same(x, y) for x, y in zip(batch, a.batch)):
                raise Unsupported("broadcasting of batches")
            r = broadcast_to(SymArr(a.p, 2), *shape[nb:])
            return SymArr(r.p, 2, batch, a.nan)
        raise Unsupported("broadcasting of batches")
    if len(shape) < a.core:
        raise ValueError("input operand has more dimensions than allowed")
    p, core = a.p, a.core
    if core == len(shape) and all(isame(x, y) for x, y in zip(shape, a.p.shape)):
        return a
    if core == 0:
        if len(shape) == 0:
            return a
        return SymArr(_ones(shape[0], shape[1] if len(shape) == 2 else 1).scale(p.as_scalar()), len(shape), (), a.nan)
    if core == 1 and len(shape) == 2:
        p, core = p.T, 2
    if core == 1:
        if not same(p.shape[0], shape[0]):
            if not same(p.shape[0], 1):
                raise ValueError("cannot broadcast")
            p = _ones(shape[0], 1) @ p
        return SymArr(p, 1, (), a.nan)
    if not same(p.shape[0], shape[0]):
        if not same(p.shape[0], 1):
            raise ValueError("cannot broadcast")
        p = _ones(shape[0], 1) @ p
    if not same(p.shape[1], shape[1]):
        if not same(p.shape[1], 1):
            raise ValueError("cannot broadcast")
        p = p @ _ones(1, shape[1])
    return SymArr(p, 2, (), _poison(a) if a.core == 1 else a.nan)


def reshape(a, *shape):
    a = lift(a)
    shape = tuple(SymInt.of(s) for s in shape)
    old = tuple(SymInt.of(s) for s in a.shape)
    if len(shape) == len(old) and all(isame(x, y) for x, y in zip(shape, old)):
        return a
    if a.batch:
        raise Unsupported("reshaping of batches")
    minus = [s.is_const and s.value == -1 for s in shape]
    if len(shape) == 1:
        if a.core == 0:
            return SymArr(a.p, 1, (), a.nan)
        if a.core == 2:
            n, m = a.p.shape
            if same(m, 1):
                return SymArr(a.p, 1, (), a.nan)
            if same(n, 1):
                return SymArr(a.p.T, 1, (), a.nan)
        if a.core == 1 and minus[0]:
            return a
    if len(shape) == 2 and a.core >= 1:
        n, m = a.p.shape
        if a.core == 2 and not same(m, 1):
            if not same(n, 1):
                raise Unsupported("general reshape")
            col = a.p.T
        else:
            col = a.p
        n = col.shape[0]
        if (minus[0] or isame(shape[0], n)) and shape[1].is_const and shape[1].value == 1:
            return SymArr(col, 2, (), a.nan)
        if (minus[1] or isame(shape[1], n)) and shape[0].is_const and shape[0].value == 1:
            return SymArr(col.T, 2, (), a.nan)
    raise Unsupported(f"reshape of {old} to {shape}")


def _concat_nan(parts, lens):
    if all(x.nan is None for x in parts):
        return None
    if any(x.nan == "poison" for x in parts if not isinstance(x.nan, SymMask)):
        return "poison"
    segs = []
    for x, n in zip(parts, lens):
        segs.extend(x.nan.segs if x.nan is not None else [(False, None, SymInt.of(n))])
    return SymMask(segs)


def concat(*xs, axis=0):
    xs = [lift(x) for x in xs]
    core = xs[0].core
    if any(x.core != core for x in xs) or core == 0:
        raise ValueError("all the input array dimensions must match")
    batch = _batches(*xs)
    if any(len(x.batch) != len(batch) for x in xs):
        raise ValueError("all the input array dimensions must match")
    axis = SymInt.of(axis).__index__()
    if axis < 0:
        axis += core + len(batch)
    if not 0 <= axis < core + len(batch):
        raise np.exceptions.AxisError("axis out of bounds")
    k = axis - len(batch)
    if k < 0:
        raise Unsupported("concatenation of batches")
    tot = SymInt.const(0)
    other = xs[0].p.shape[1 - k]
    for x in xs:
        if not same(x.p.shape[1 - k], other):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        tot = tot + x.p.shape[k]
    res = t.Poly.zeros(tot, other) if k == 0 else t.Poly.zeros(other, tot)
    off = SymInt.const(0)
    for x in xs:
        n = x.p.shape[k]
        if not isame(n, 0):
            e = _embed(off, n, tot)
            res = res + (e @ x.p if k == 0 else x.p @ e.T)
        off = off + n
    nan = _concat_nan(xs, [x.p.shape[0] for x in xs]) if k == 0 else _poison(*xs)
    return SymArr(res, core, batch, nan)


def stack(*xs, axis=0):
    xs = [lift(x) for x in xs]
    core = xs[0].core
    if any(x.core != core for x in xs):
        raise ValueError("all input arrays must have the same shape")
    axis = SymInt.of(axis).__index__()
    if axis < 0:
        axis += core + 1
    if core == 0:
        return concat(*[expand_dims(x) for x in xs], axis=0)
    if core == 1:
        return concat(*[SymArr(x.p, 2, x.batch, x.nan) for x in xs], axis=1) if axis == 1 else concat(
            *[SymArr(x.p.T, 2, x.batch, x.nan) for x in xs], axis=0
        )
    raise Unsupported("arrays of rank more than two")


def tile(a, *reps):
    a = lift(a)
    reps = [SymInt.of(r) for r in reps]
    if a.batch or len(reps) != a.core:
        raise Unsupported("general tiling")
    for r in reps:
        if not r.is_const:
            raise Unsupported("symbolic tiling")
    for k, r in enumerate(reps):
        a = concat(*[a] * r.value, axis=k) if r.value > 1 else a
    return a


# ---------------------------------------------------------------------------------------------
# Randomness.


class SymState:
    """Random state: a name and a position.  Equal states give equal draws.  Like the states of NumPy, it is advanced in
    place, or, if it is a `value`, like the states of JAX, never."""

    def __init__(self, name, pos=0, value=False):
        self.name, self.pos, self.value = name, pos, value

    def advanced(self):
        if self.value:
            return SymState(self.name, self.pos + 1, True)
        self.pos += 1
        return self

    def __repr__(self):
        return f"<SymState {self.name} at {self.pos}>"

    def get_state(self):
        return (self.name, self.pos)

    def set_state(self, s):
        self.name, self.pos = s


def _global_state():
    c = ctx()
    if not hasattr(c, "global_state"):
        c.global_state = SymState("global")
    return c.global_state


def _randn(state, n, m, core):
    name = f"eps[{state.name}#{state.pos}]"
    if SymInt.of(n).is_const and SymInt.of(n).value == 0:
        return SymArr(t.Poly.zeros(n, m), core)
    if t.dkey(n) == t.ONE and t.dkey(m) == t.ONE:
        return SymArr(t.Poly.scalar(t.SP.atom(("s", name))), core)
    return SymArr(t.Poly.factor(("at", name, t.dkey(n), t.dkey(m), False, False)), core)


# ---------------------------------------------------------------------------------------------
# Installation.


class _Types(Loader):
    """Load `lab.types` and extend its unions of types."""

    def __init__(self, loader):
        self.loader = loader

    def create_module(self, spec):
        return self.loader.create_module(spec)

    def exec_module(self, mod):
        from plum import set_union_alias

        self.loader.exec_module(mod)
        mod.Int = set_union_alias(Union[mod.Int, SymInt], "B.Int")
        mod.Number = set_union_alias(Union[mod.Number, SymInt], "B.Number")
        mod.Numeric = set_union_alias(Union[mod.Numeric, SymArr, SymMask, SymInt], "B.Numeric")
        mod.RandomState = set_union_alias(Union[mod.RandomState, SymState], "B.RandomState")


class _Finder(MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "lab.types":
            return None
        spec = PathFinder.find_spec(name, path)
        spec.loader = _Types(spec.loader)
        return spec


def install():
    """Install the backend.  Must be called before LAB is imported."""
    if "lab" in sys.modules:
        raise RuntimeError("LAB is already imported")
    sys.meta_path.insert(0, _Finder())
    import lab as B

    _register(B)
    B.epsilon = 0
    return B


def _register(B):
    from lab import dispatch
    from lab.types import Bool, Complex, Float, NPDType, NPNumeric, NPRandomState
    from plum import add_conversion_method, add_promotion_rule

    from lab.types import Int as LInt

    PyInt = Union[tuple([int] + np.core.sctypes["int"] + np.core.sctypes["uint"])]
    Num = Union[PyInt, Bool, Float, NPNumeric]
    Other = Union[Num, SymInt]
    from lab.shape import Dimension

    Int = LInt
    over = dispatch(precedence=2)

    for ty in (*_members(Num), SymInt, Dimension):
        add_promotion_rule(ty, SymArr, SymArr)
        add_conversion_method(ty, SymArr, lift)

    # Binary elementwise functions.
    def binary(name, f):
        def g(a, b):
            return f(a, b)

        g.__name__ = name
        for ta, tb in [(SymArr, SymArr), (SymArr, Other), (Other, SymArr)]:
            def h(a, b, f=f):
                return f(a, b)

            h = lambda a, b, f=f: f(a, b)
            _reg(B, dispatch, name, h, (ta, tb))
        # Symbolic integers among numbers.
        for ta, tb in [(SymInt, SymInt), (SymInt, Num), (Num, SymInt)]:
            _reg(B, dispatch, name, _int_or(name, f), (ta, tb))

    def _int_or(name, f):
        def h(a, b):
            if name in ("add", "subtract", "multiply", "maximum", "minimum") and _intlike(a) and _intlike(b):
                a, b = SymInt.of(a), SymInt.of(b)
                if name == "add":
                    return a + b
                if name == "subtract":
                    return a - b
                if name == "multiply":
                    return a * b
                if isame(a, b):
                    return a
                return _dmin(a, b) if name == "minimum" else _dmax(a, b)
            return f(lift(a), lift(b))

        return h

    binary("add", add)
    binary("subtract", lambda a, b: add(a, b, -1))
    binary("multiply", multiply)
    binary("divide", divide)
    binary("power", power)
    binary("minimum", lambda a, b: _binary_el("min", a, b))
    binary("maximum", lambda a, b: _binary_el("max", a, b))

    # Unary elementwise functions.
    for name, f in [
        ("negative", lambda a: -lift(a)),
        ("sqrt", lambda a: elementwise("sqrt", a)),
        ("exp", lambda a: elementwise("exp", a)),
        ("log", lambda a: elementwise("log", a)),
        ("abs", lambda a: elementwise("abs", a)),
        ("sin", lambda a: elementwise("sin", a)),
        ("cos", lambda a: elementwise("cos", a)),
        ("tanh", lambda a: elementwise("tanh", a)),
        ("identity", lambda a: a),
        ("real", lambda a: a),
        ("to_numpy", lambda a: a),
        ("jit_to_numpy", lambda a: a),
        ("to_active_device", lambda a: a),
        ("isabstract", lambda a: False),
        ("device", lambda a: "cpu"),
        ("inv", inv),
        ("_cholesky", cholesky),
        ("root", root),
        ("logdet", logdet),
        ("diag", diag),
        ("diag_extract", diag_extract),
        ("diag_construct", diag_construct),
    ]:
        _reg(B, dispatch, name, f, (SymArr,))
    for name in ("sqrt", "log", "negative", "exp", "abs"):
        _reg(B, dispatch, name, lambda a, name=name: -a if name == "negative" else elementwise(name, a), (SymInt,))
    for name in ("to_numpy", "jit_to_numpy", "identity"):
        _reg(B, dispatch, name, lambda a: a, (SymMask,))

    @over
    def take(a: NPNumeric, mask: SymMask, axis: Int = 0):
        return B.take(lift(a), mask, axis=axis)

    @dispatch
    def isnan(a: SymArr):
        if a.nan == "poison":
            raise Unsupported("isnan of computed values")
        if a.batch:
            return _NoneMissing(a.ndim)
        n, m = a.p.shape
        if a.core == 0:
            return False
        if a.core == 2 and not same(m, 1):
            if a.nan is None:
                return _NoneMissing(a.ndim)
            raise Unsupported("isnan of a matrix")
        return SymMask(a.nan.segs if a.nan is not None else [(False, None, SymInt.of(n))], a.core)

    @dispatch
    def isnan(a: SymInt):
        return False

    @dispatch
    def all(a: SymMask, axis: type(None) = None, squeeze: bool = True):
        return a.all()

    @dispatch
    def any(a: SymMask, axis: type(None) = None, squeeze: bool = True):
        return a.any()

    # Error messages and `str` format arrays.
    from wbml import out as wbml_out

    for type_ in (SymArr, SymMask, SymInt):

        def format_(x, info):
            return repr(x)

        format_.__annotations__ = {"x": type_, "info": bool}
        format_.__name__ = "format"
        wbml_out._dispatch(format_)

    @dispatch
    def all(a: _NoneMissing):
        return a.value

    @dispatch
    def any(a: _NoneMissing):
        return a.value

    @dispatch
    def jit_to_numpy(a: _NoneMissing):
        return a

    @dispatch
    def sum(a: SymMask, axis: type(None) = None, squeeze: bool = True):
        return dim_out(a.count())

    @dispatch
    def cast(dtype: NPDType, a: SymArr):
        return a

    @dispatch
    def cast(dtype: NPDType, a: SymInt):
        if B.issubdtype(dtype, np.integer):
            return a
        return lift(a)

    @dispatch
    def cast(dtype: NPDType, a: Dimension):
        if isinstance(a.dim, SymInt):
            return cast(dtype, a.dim)
        return np.array(a.dim, dtype=dtype)

    @dispatch
    def dtype(a: SymInt):
        return int

    @dispatch
    def dtype(a: SymArr):
        return np.float64

    @dispatch
    def dtype(a: SymMask):
        return bool

    # Constructors.
    def _sym(shape):
        return [SymInt.of(s) for s in shape if isinstance(getattr(s, "dim", s), SymInt)] != []

    def _construct(value, shape):
        if len(shape) > 2:
            raise Unsupported("constant arrays of rank more than two")
        p = t.Poly.const(value, shape[0], shape[1] if len(shape) == 2 else 1)
        return SymArr(p, len(shape))

    def _con(value, f):
        def g(dtype, *shape):
            shape = tuple(getattr(s, "dim", s) for s in shape)
            if any_(isinstance(s, SymInt) and not s.is_const for s in shape):
                return _construct_batched(value, shape)
            return f(tuple(int(s) for s in shape), dtype=dtype)

        return g

    def _construct_batched(value, shape):
        if len(shape) <= 2:
            return _construct(value, shape)
        r = _construct(value, shape[-2:])
        return SymArr(r.p, 2, tuple(SymInt.of(s) for s in shape[:-2]))

    import builtins

    any_ = builtins.any

    _reg_var(B, dispatch, "zeros", _con(0, np.zeros), NPDType, Int)
    _reg_var(B, dispatch, "ones", _con(1, np.ones), NPDType, Int)

    def _eye2(dtype, *shape):
        shape = tuple(getattr(s, "dim", s) for s in shape)
        if any_(isinstance(s, SymInt) and not s.is_const for s in shape):
            if not same(*shape):
                raise Unsupported("rectangular identity")
            return SymArr(t.Poly.eye(shape[0]), 2)
        return np.eye(int(shape[0]), int(shape[1]), dtype=dtype)

    _reg_var(B, dispatch, "_eye2", _eye2, NPDType, Int)

    @dispatch
    def eye(dtype: NPDType, b: Int, n: Int, m: Int):
        shape = tuple(getattr(s, "dim", s) for s in (b, n, m))
        if any_(isinstance(s, SymInt) and not s.is_const for s in shape):
            if not same(*shape[1:]):
                raise Unsupported("rectangular identity")
            return SymArr(t.Poly.eye(shape[1]), 2, (SymInt.of(shape[0]),))
        b, n, m = (int(s) for s in shape)
        return np.tile(np.eye(n, m, dtype=dtype)[None], (b, 1, 1))

    @dispatch
    def _expand_dims(a: SymArr, axis: Int = 0):
        return expand_dims(a, axis)

    @dispatch
    def _expand_dims(a: SymInt, axis: Int = 0):
        return expand_dims(lift(a), axis)

    _squeeze, _sum, _mean, _trace, _matmul, _transp = squeeze_f, sum_, mean_, trace_f, matmul_f, _transpose

    @dispatch
    def squeeze(a: SymArr, axis: Union[Int, None] = None):
        return _squeeze(a, axis)

    @dispatch
    def sum(a: SymArr, axis: Union[Int, None] = None, squeeze: bool = True):
        return _sum(a, axis, squeeze)

    @dispatch
    def mean(a: SymArr, axis: Union[Int, None] = None, squeeze: bool = True):
        return _mean(a, axis, squeeze)

    @dispatch
    def trace(a: SymArr, axis1: Int = -2, axis2: Int = -1):
        if {axis1, axis2} != {-2, -1}:
            raise Unsupported("trace over other axes")
        return _trace(a)

    @dispatch
    def transpose(a: SymArr, perm: Union[tuple, list, None] = None):
        return _transp(a, perm)

    for ta, tb in [(SymArr, SymArr), (SymArr, NPNumeric), (NPNumeric, SymArr)]:
        _reg_matmul(dispatch, _matmul, ta, tb)
        _reg(B, dispatch, "solve", solve, (ta, tb))
        _reg(B, dispatch, "cholesky_solve", cholesky_solve, (ta, tb))
        _reg_trisolve(dispatch, triangular_solve, ta, tb)

    for name, f in [("broadcast_to", broadcast_to), ("reshape", reshape), ("tile", tile)]:
        _reg_shape(B, dispatch, name, f, SymArr, Int)

    # Concrete arrays that are brought to symbolic shapes.
    def _concrete(name, f, g):
        def h(a, *shape):
            shape = tuple(getattr(s, "dim", s) for s in shape)
            if any_(isinstance(s, SymInt) and not s.is_const for s in shape):
                return f(lift(a), *shape)
            return g(a, tuple(int(s) for s in shape))

        from lab.types import Number

        _reg_shape(B, over, name, h, Union[Number, NPNumeric], Int, prec=1)

    _concrete("broadcast_to", broadcast_to, np.broadcast_to)
    _concrete("reshape", reshape, np.reshape)
    _concrete("tile", tile, np.tile)

    def _reg_elements(name, f):
        def impl(*elements: SymArr, axis: Int = 0):
            return f(*elements, axis=axis)

        impl.__name__ = name
        dispatch(impl)

    @dispatch
    def _unstack(a: SymArr, axis: Int = 0):
        axis = SymInt.of(axis).__index__()
        axis = axis % len(a.shape) - len(a.batch)
        size = SymInt.of(a.shape[len(a.batch) + axis])
        if axis < 0 or not size.is_const:
            raise Unsupported("unstacking a symbolic number of elements")
        index = (Ellipsis,) + (slice(None),) * axis
        rest = (slice(None),) * (a.core - 1 - axis)
        return [a[index + (i,) + rest] for i in range(size.value)]

    _reg_elements("concat", concat)
    _reg_elements("stack", stack)

    @dispatch
    def length(a: SymArr):
        r = SymInt.const(1)
        for s in a.shape:
            r = r * s
        return dim_out(r)

    # Batch dimensions may be symbolic.
    from matrix.ops import shape_batch_broadcast as _sbb  # noqa: F401  (registers matrix's functions)

    # Sums of matrices of low rank: equal columns are found by comparing numbers, which only serves efficiency.
    from matrix import LowRank

    def add_lowrank(a: LowRank, b: LowRank):
        return LowRank(
            B.concat(B.dense(a.left), B.dense(b.left), axis=-1),
            B.concat(B.dense(a.right), B.dense(b.right), axis=-1),
            B.block_diag(lift(B.dense(a.middle)), lift(B.dense(b.middle))),
        )

    add_lowrank.__name__ = "add"
    B.dispatch(add_lowrank)

    # Randomness.
    @dispatch
    def randn(state: SymState, dtype: NPDType, *shape: Int):
        shape = tuple(SymInt.of(s) for s in shape)
        if len(shape) == 2:
            x = _randn(state, shape[0], shape[1], 2)
            return state.advanced(), x
        if len(shape) == 1:
            x = _randn(state, shape[0], 1, 1)
            return state.advanced(), x
        if len(shape) == 3:
            r = _randn(state, shape[1], shape[2], 2)
            return state.advanced(), SymArr(r.p, 2, shape[:1])
        raise Unsupported("random arrays of other ranks")

    def global_random_state(_: NPDType):
        return _global_state()

    dispatch(precedence=1)(global_random_state)

    @dispatch
    def global_random_state(a: SymArr):
        return _global_state()

    @dispatch
    def set_global_random_state(state: SymState):
        g = _global_state()
        if state.value:
            ctx().global_state = state
        else:
            g.set_state(state.get_state())


class _NoneMissing:
    """Elementwise outcome of `isnan` on an array without missing values."""

    def __init__(self, rank, value=False):
        self.rank, self.value = rank, value

    def __getitem__(self, item):
        return self

    def __invert__(self):
        return _NoneMissing(self.rank, not self.value)


squeeze_f, trace_f, matmul_f = squeeze, trace, matmul


def _intlike(x):
    return isinstance(x, (int, np.integer, SymInt)) and not isinstance(x, bool)


def _members(u):
    import typing

    out = []
    for a in typing.get_args(u) or (u,):
        out.extend(_members(a) if typing.get_args(a) else [a])
    return out


def _reg(B, dispatch, name, f, types):
    import inspect

    if len(types) == 1:

        def impl(a):
            return f(a)

        impl.__annotations__ = {"a": types[0]}
    else:

        def impl(a, b):
            return f(a, b)

        impl.__annotations__ = {"a": types[0], "b": types[1]}
    impl.__name__ = name
    impl.__qualname__ = name
    dispatch(impl)


def _reg_var(B, dispatch, name, f, tfirst, tint):
    def impl(dtype, *shape):
        return f(dtype, *shape)

    impl.__annotations__ = {"dtype": tfirst, "shape": tint}
    impl.__name__ = impl.__qualname__ = name
    dispatch(precedence=1)(impl)


def _reg_shape(B, dispatch, name, f, tfirst, tint, prec=0):
    def impl(a, *shape):
        return f(a, *shape)

    impl.__annotations__ = {"a": tfirst, "shape": tint}
    impl.__name__ = impl.__qualname__ = name
    dispatch(impl)


def _reg_matmul(dispatch, f, ta, tb):
    def matmul(a: ta, b: tb, tr_a: bool = False, tr_b: bool = False):
        return f(a, b, tr_a, tr_b)

    dispatch(matmul)


def _reg_trisolve(dispatch, f, ta, tb):
    def triangular_solve(a: ta, b: tb, lower_a: bool = True):
        return f(a, b, lower_a)

    dispatch(triangular_solve)
