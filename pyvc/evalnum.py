"""Numerical evaluation of normal forms.

Used (1) to decide whether an equality that the normaliser cannot discharge is refuted by a concrete
interpretation or whether the normaliser is merely incomplete, and (2) to test the rewriting rules themselves.
"""
import zlib

import numpy as np
import z3

from . import terms as t
from .core import SymInt, Unsupported, ctx


def _rng(*key):
    return np.random.RandomState(zlib.crc32(repr(key).encode()) % (2**32 - 1))


class Interp:
    """A concrete interpretation of all atoms that is consistent with the path condition."""

    def __init__(self, c, seed):
        self.seed = seed
        self.c = c
        self.rng = np.random.RandomState(seed)
        self.dims = {}
        self.masks = {}
        self.cache = {}
        s = z3.Solver()
        s.set("timeout", 5000)
        for k in c.constraints:
            s.add(k)
        for v in c.ivars.values():
            s.add(v >= 0)
        s.push()
        if s.check() != z3.sat:
            raise Unsupported("cannot find a model of the path condition")
        order = list(c.ivars)
        self.rng.shuffle(order)
        for name in order:
            v = c.ivars[name]
            done = False
            for k in list(self.rng.permutation([2, 3, 4, 5])) + [1, 0]:
                if s.check(v == int(k)) == z3.sat:
                    s.add(v == int(k))
                    self.dims[name] = int(k)
                    done = True
                    break
            if not done:
                s.check()
                k = s.model().eval(v, model_completion=True).as_long()
                s.add(v == k)
                self.dims[name] = k

    def dim(self, key):
        r = 0
        for m, k in key:
            p = k
            for v in m:
                if v not in self.dims:
                    if v.startswith("cnt{"):
                        self._count_var(v)
                    else:
                        self.dims[v] = int(self.rng.randint(2, 5))
                p *= self.dims[v]
            r += p
        return r

    def _count_var(self, v):
        raise Unsupported(f"count {v} without a value")

    def mask(self, name, hi):
        """Boolean array that realises a mask."""
        if name not in self.masks:
            table = [(pos, c) for (nm, pos), c in getattr(self.c, "mask_prefix", {}).items() if nm == name]
            pts = sorted((self.dim(pos), self.dim(SymInt.of(c).key)) for pos, c in table)
            out, lo, cl = [], 0, 0
            for p, c in pts:
                seg = np.zeros(p - lo, bool)
                seg[_rng(self.seed, name, p).permutation(p - lo)[: c - cl]] = True
                out.append(seg)
                lo, cl = p, c
            self.masks[name] = np.concatenate(out) if out else np.zeros(0, bool)
        return self.masks[name]

    # Interpretations of uninterpreted symbols.
    def fn(self, name, m, args):
        a = np.concatenate(args, axis=1) if args else np.zeros((1, 1))
        r = _rng(self.seed, "fn", name, a.shape[1], m)
        w, b = r.randn(a.shape[1], m) * 0.5, r.randn(m)
        return np.sin(a @ w + b) + 0.3 * np.cos(1.7 * a @ w)

    def feat(self, name, x):
        r = _rng(self.seed, "feat", name, x.shape[1])
        w, b = r.randn(x.shape[1], 24) * 1.5, r.randn(24) * 2
        return np.sin(x @ w + b)

    def scalar(self, a):
        k = ("scalar", a)
        if k not in self.cache:
            self.cache[k] = self._scalar(a)
        return self.cache[k]

    def _scalar(self, a):
        kind = a[0]
        if kind == "s":
            r = _rng(self.seed, a)
            v = r.uniform(0.3, 2.0)
            return v if a[1] in getattr(self.c, "positive", ()) else v * r.choice([-1, 1])
        if kind == "dim":
            return float(self.dim((((a[1],), 1),)))
        if kind == "tr":
            M = np.eye(self.dim(t.rows(a[1][0])))
            for f in a[1]:
                M = M @ self.factor(f)
            return float(np.trace(M))
        if kind == "logdet":
            s, v = np.linalg.slogdet(self.poly(t.poly_of_key(a[1])))
            return float(v)
        if kind == "log":
            if a[1][0] == "sp":
                return float(np.log(abs(self.sp(t.SP(dict(a[1][1]))))))
            return float(np.log(abs(self.scalar(a[1]))))
        if kind == "sp":
            return self.sp(t.SP(dict(a[1])))
        if kind == "sqrt":
            return float(np.sqrt(abs(self.sp(t.SP(dict(a[1]))))))
        if kind == "k":
            x, y = (self.poly(t.poly_of_key(k)) for k in a[2:4])
            return float((self.feat(a[1][0], x) @ self.feat(a[1][1], y).T)[0, 0])
        if kind == "el":
            if a[1].startswith("fn:"):
                return float(self.fn(a[1], 1, [self.poly(t.poly_of_key(k)) for k in a[2]])[0, 0])
            return float(self.el(a[1], [np.array([[self.sp(t.SP(dict(k)))]]) for k in a[2]])[0, 0])
        raise Unsupported(f"cannot evaluate scalar {a}")

    def el(self, name, args):
        if name == "recip":
            return 1 / args[0]
        if name == "sqrt":
            return np.sqrt(np.abs(args[0]))
        if name == "log":
            return np.log(np.abs(args[0]))
        if name == "exp":
            return np.exp(args[0])
        if name == "abs":
            return np.abs(args[0])
        if name == "max":
            return np.maximum(*args)
        if name == "min":
            return np.minimum(*args)
        if name == "tril":
            return np.tril(args[0])
        if name == "triu":
            return np.triu(args[0])
        if name.startswith("fn:"):
            raise AssertionError
        r = _rng(self.seed, "el", name)
        return np.sin(sum(r.randn() * a for a in args) + r.randn())

    def sp(self, s):
        r = 0.0
        for m, c in s.t.items():
            p = float(c)
            for a, k in m:
                p *= self.scalar(a) ** k
            r += p
        return r

    def mono(self, m, n=None):
        M = None
        for f in m:
            F = self.factor(f)
            M = F if M is None else M @ F
        return np.eye(n) if M is None else M

    def poly(self, p):
        n, m = self.dim(p.n), self.dim(p.m)
        M = np.zeros((n, m))
        for mm, c in p.t.items():
            M = M + self.sp(c) * self.mono(mm, n)
        return M

    def factor(self, f):
        if f not in self.cache:
            M = self._factor(f)
            assert M.shape == (self.dim(t.rows(f)), self.dim(t.cols(f))), (f, M.shape)
            self.cache[f] = M
        return self.cache[f]

    def _factor(self, f):
        k = f[0]
        T = lambda M, flag: M.T if flag else M
        if k == "at":
            n, m = self.dim(f[2]), self.dim(f[3])
            r = _rng(self.seed, "at", f[1], n, m)
            M = r.randn(n, m)
            if f[4]:
                M = M @ M.T + 0.1 * np.eye(n)
            elif m == 1 and f[1] in getattr(self.c, "positive", ()):
                M = 0.3 + np.abs(M)
            return T(M, f[5])
        if k in ("inv", "ch", "P", "rt"):
            P = self.poly(t.poly_of_key(f[1]))
            if k != "P" and np.linalg.cond(P) > 1e6:
                raise np.linalg.LinAlgError("ill-conditioned")
            if k == "inv":
                return T(np.linalg.inv(P), f[4])
            if k == "P":
                return P
            if k == "ch":
                L = np.linalg.cholesky(P)
                return T(np.linalg.inv(L) if f[4] else L, f[3])
            w, v = np.linalg.eigh(P)
            return (v * np.sqrt(np.abs(w))) @ v.T
        if k == "D":
            return np.diag(self.mono(f[1])[:, 0])
        if k == "one":
            return T(np.ones((self.dim(f[1]), 1)), f[2])
        if k == "E":
            o, n, N = (self.dim(x) for x in f[1:4])
            M = np.zeros((N, n))
            M[o : o + n] = np.eye(n)
            return T(M, f[4])
        if k == "S":
            lo, hi = self.dim(f[2]), self.dim(f[3])
            m = self.mask(f[1], hi)[lo:hi]
            return T(np.eye(hi - lo)[m], f[4])
        if k == "R":
            d = self.dim(f[2])
            return T(np.eye(d)[:, list(f[1])], f[4])
        if k == "had":
            M = 1.0
            for m in f[1]:
                M = M * self.mono(m)
            return M
        if k == "hc":
            M = 1.0
            for m in f[1]:
                M = M * self.mono(m)
            return T(M, f[3])
        if k == "dc":
            return T(np.diag(self.mono(f[1])).reshape(-1, 1), f[3])
        if k == "el":
            args = [self.poly(t.poly_of_key(a)) for a in f[2]]
            if f[1].startswith("fn:"):
                return T(self.fn(f[1], self.dim(f[4]), args), f[5])
            return T(self.el(f[1], args), f[5])
        if k == "K":
            x, y = (self.poly(t.poly_of_key(a)) for a in f[2:4])
            return T(self.feat(f[1][0], x) @ self.feat(f[1][1], y).T, f[6])
        raise Unsupported(f"cannot evaluate factor {f}")
