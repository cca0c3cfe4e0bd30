"""Core of the verifier: execution contexts, path exploration, symbolic integers and booleans.

A contract harness is an ordinary Python function that calls the real code.  It is executed once per
path; every branch on a symbolic value asks z3 which outcomes are feasible under the path condition and
explores all of them by re-execution.  Everything that the verifier cannot handle raises `Unsupported`,
which derives from `BaseException` so that no handler in the code under verification can swallow it.
"""
import time
from fractions import Fraction

import z3


class Unsupported(BaseException):
    """The verifier cannot handle a construct: the obligation is undecided (never a violation)."""


class PathEnd(BaseException):
    """The current path is infeasible or has been ended by an assumption."""


class Ctx:
    current = None

    def __init__(self, prefix, stats):
        self.prefix = prefix
        self.decisions = []  # (label, index, number of options)
        self.constraints = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 5000)
        self.stats = stats
        self.ivars = {}
        self.obligations = []
        self.trace = []
        self.covers = set()
        self.memo = {}

    # Decisions.
    def decide(self, options, label):
        """Choose one of `options` (a list of values); explored exhaustively."""
        k = len(self.decisions)
        i = self.prefix[k] if k < len(self.prefix) else 0
        if i >= len(options):
            raise Unsupported("non-deterministic execution of the harness")
        self.decisions.append((label, i, len(options)))
        self.trace.append(f"{label} := {options[i]!r}"[:200])
        return options[i]

    def assume(self, c):
        self.constraints.append(c)
        self.solver.add(c)

    def feasible(self, c):
        t = time.time()
        self.stats["solver_calls"] = self.stats.get("solver_calls", 0) + 1
        r = self.solver.check(c)
        self.stats["solver_time"] = self.stats.get("solver_time", 0.0) + time.time() - t
        return r != z3.unsat

    def entails(self, c):
        return not self.feasible(z3.Not(c))

    def entails_memo(self, key, make):
        """Entailment of a comparison of dimensions: what is entailed stays entailed on the path."""
        r = self.memo.get(key)
        if r is True or r == len(self.constraints):
            return r is True
        out = self.entails(make())
        self.memo[key] = True if out else len(self.constraints)
        return out

    def branch(self, c, label):
        """Branch on the z3 condition `c`."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        opts = []
        if self.feasible(c):
            opts.append(True)
        if self.feasible(z3.Not(c)):
            opts.append(False)
        if not opts:
            raise PathEnd("infeasible")
        v = opts[0] if len(opts) == 1 else self.decide(opts, label)
        self.assume(c if v else z3.Not(c))
        return v


def ctx():
    if Ctx.current is None:
        raise Unsupported("symbolic value used outside of an exploration")
    return Ctx.current


# ---------------------------------------------------------------------------------------------
# Symbolic integers: polynomials over named integer variables.


class IntVar:
    """Registered facts on integer variables."""


class SymInt:
    __slots__ = ("p", "_h")

    def __init__(self, p):
        self.p = p  # dict: sorted tuple of variable names -> int
        self._h = None

    @staticmethod
    def const(c):
        return SymInt({(): int(c)} if c else {})

    @staticmethod
    def var(name, lo=0):
        c = Ctx.current
        if c is not None and name not in c.ivars:
            c.ivars[name] = z3.Int(name)
            if lo is not None:
                c.assume(c.ivars[name] >= lo)
        return SymInt({(name,): 1})

    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x
        d = getattr(x, "dim", None)
        if type(x).__name__ == "Dimension":
            return SymInt.of(d)
        if isinstance(x, bool):
            return SymInt.const(int(x))
        try:
            import numpy as np

            if isinstance(x, (int, np.integer)):
                return SymInt.const(int(x))
        except ImportError:  # pragma: no cover
            pass
        raise Unsupported(f"not an integer: {x!r}")

    @property
    def key(self):
        return tuple(sorted(self.p.items()))

    @property
    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    @property
    def value(self):
        return self.p.get((), 0)

    def z3(self):
        c = ctx()
        e = z3.IntVal(0)
        for m, k in self.p.items():
            t = z3.IntVal(k)
            for v in m:
                if v not in c.ivars:
                    c.ivars[v] = z3.Int(v)
                    c.assume(c.ivars[v] >= 0)
                t = t * c.ivars[v]
            e = e + t
        return z3.simplify(e)

    def _bin(self, o, s):
        o = SymInt.of(o)
        p = dict(self.p)
        for m, k in o.p.items():
            p[m] = p.get(m, 0) + s * k
            if p[m] == 0:
                del p[m]
        return SymInt(p)

    def __add__(self, o):
        from .symlab import is_arraylike

        if is_arraylike(o):
            return NotImplemented
        return self._bin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, -1)

    def __rsub__(self, o):
        return SymInt.of(o)._bin(self, -1)

    def __neg__(self):
        return SymInt.const(0)._bin(self, -1)

    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            return NotImplemented
        if isinstance(o, float):
            raise Unsupported("integer times float")
        from .symlab import is_arraylike

        if is_arraylike(o):
            return NotImplemented
        o = SymInt.of(o)
        p = {}
        for m, k in self.p.items():
            for m2, k2 in o.p.items():
                mm = tuple(sorted(m + m2))
                p[mm] = p.get(mm, 0) + k * k2
                if p[mm] == 0:
                    del p[mm]
        return SymInt(p)

    __rmul__ = __mul__

    def _cmp(self, o, op):
        try:
            o = SymInt.of(o)
        except Unsupported:
            return NotImplemented
        d = self - o
        if d.is_const:
            return op(d.value, 0)
        return SymBool(op(d.z3(), 0), f"{self} vs {o}")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.value) if self.is_const else hash(self.key)
        return self._h

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if self.is_const:
            return self.value
        raise Unsupported(f"symbolic integer {self} needed as a concrete integer")

    __int__ = __index__

    def __repr__(self):
        if not self.p:
            return "0"
        return "+".join(
            (str(k) if not m else ("" if k == 1 else f"{k}*") + "*".join(m)) for m, k in sorted(self.p.items())
        )


def isame(a, b):
    """Syntactic, then semantic (z3, under the path condition) equality of two dimensions."""
    d = SymInt.of(a) - SymInt.of(b)
    if d.is_const:
        return d.value == 0
    return ctx().entails_memo(("eq", d.key), lambda: d.z3() == 0)


def ile(a, b):
    """`a <= b` provable under the path condition."""
    d = SymInt.of(b) - SymInt.of(a)
    if d.is_const:
        return d.value >= 0
    return ctx().entails_memo(("le", d.key), lambda: d.z3() >= 0)


class SymBool:
    """A symbolic truth value: branching on it explores both outcomes."""

    def __init__(self, c, label=""):
        self.c = c
        self.label = label

    def __bool__(self):
        return ctx().branch(self.c, f"branch[{self.label}]")

    def __invert__(self):
        return SymBool(z3.Not(self.c), f"not {self.label}")

    def __and__(self, o):
        return SymBool(z3.And(self.c, o.c if isinstance(o, SymBool) else z3.BoolVal(bool(o))), "and")

    def __or__(self, o):
        return SymBool(z3.Or(self.c, o.c if isinstance(o, SymBool) else z3.BoolVal(bool(o))), "or")

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.c == o.c, "==")
        return self if o else ~self

    def __hash__(self):
        return id(self)


def truth(x):
    """z3 expression of a truth value."""
    if isinstance(x, SymBool):
        return x.c
    return z3.BoolVal(bool(x))


def boolvar(name):
    return SymBool(z3.Bool(name), name)


# ---------------------------------------------------------------------------------------------
# Exploration.


class Obligation:
    def __init__(self, name, status, detail="", path=(), backend="", decisions=()):
        self.name, self.status, self.detail = name, status, detail
        self.path, self.backend, self.decisions = path, backend, decisions


def explore(run, max_paths=20000, budget=None, stats=None, start=()):
    """Run `run(ctx)` on every path that starts with the decisions `start`.

    Args:
        budget (float, optional): Seconds after which to stop.

    Returns:
        tuple: Obligations, number of paths, dictionary with statistics, set of cover points, and the starts of the
            paths that are left.
    """
    stats = {} if stats is None else stats
    deadline = None if budget is None else time.time() + budget
    obligations, covers = [], set()
    prefix, paths = list(start), 0
    while True:
        c = Ctx(prefix, stats)
        Ctx.current = c
        try:
            run(c)
        except PathEnd:
            pass
        except Unsupported as e:
            obligations.append(Obligation("(execution)", "unsupported", str(e), tuple(c.trace), "", tuple(c.decisions)))
        finally:
            Ctx.current = None
        obligations.extend(c.obligations)
        covers |= c.covers
        paths += 1
        # Next path.
        d = [(i, n) for _, i, n in c.decisions]
        rest = []
        if paths >= max_paths or (deadline and time.time() > deadline):
            # Everything that branches off this path and has not been explored.
            for k in range(len(start), len(d)):
                rest += [[i for i, _ in d[:k]] + [j] for j in range(d[k][0] + 1, d[k][1])]
            return obligations, paths, stats, covers, rest
        while len(d) > len(start) and d[-1][0] + 1 >= d[-1][1]:
            d.pop()
        if len(d) <= len(start):
            return obligations, paths, stats, covers, rest
        prefix = [i for i, _ in d[:-1]] + [d[-1][0] + 1]
