"""C05: every result process belongs to exactly the measures its operands share."""
from pyvc.world import contract

FUNCTIONS = (
    "stheno.model.gp:assert_same_measure",
    "stheno.model.gp:intersection_measure_group",
    "stheno.model.gp:cross",
    "stheno.model.gp:GP.measure",
    "stheno.model.gp:GP.__add__",
    "stheno.model.gp:GP.__mul__",
    "stheno.model.gp:GP.shift",
    "stheno.model.gp:GP.stretch",
    "stheno.model.gp:GP.transform",
    "stheno.model.gp:GP.select",
    "stheno.model.gp:GP.diff",
    "stheno.model.gp:GP.diff_approx",
    "stheno.model.measure:Measure._add_p",
    "stheno.model.measure:Measure.condition",
    "stheno.model.measure:Measure.__call__",
)


def unary(w):
    from stheno import cross

    c, f = w.num("c"), w.fn("f")
    return {
        "p + c": lambda p: p + c,
        "c + p": lambda p: 1 + p,
        "p + f": lambda p: p + f,
        "p - c": lambda p: p - c,
        "c - p": lambda p: c - p,
        "-p": lambda p: -p,
        "p * c": lambda p: p * c,
        "c * p": lambda p: 2.0 * p,
        "f * p": lambda p: f * p,
        "p / c": lambda p: p / 2,
        "shift": lambda p: p.shift(c),
        "stretch": lambda p: p.stretch(2),
        "transform": lambda p: p.transform(w.fn("t", 1)),
        "select": lambda p: p.select(0),
        "diff": lambda p: p.diff(0),
        "diff_approx": lambda p: p.diff_approx(1, 2),
        "cross": lambda p: cross(p),
    }


def binary():
    from stheno import cross

    return {
        "p + q": lambda p, q: p + q,
        "p - q": lambda p, q: p - q,
        "p * q": lambda p, q: p * q,
        "cross": lambda p, q: cross(p, q),
        "cross of three": lambda p, q: cross(q, p, q),
    }


class History:
    """Measures, processes, and which of them belong together."""

    def __init__(self, w):
        self.w = w
        self.measures, self.ps = [], []
        self.member = {}  # From process numbers to measure numbers, the own measure first.
        self.count = 0

    def prior(self):
        from stheno import Measure

        self.measures.append(Measure())
        return len(self.measures) - 1

    def gp(self, m):
        from stheno import GP

        AtomKernel, AtomMean = self.w.classes()
        a = f"p{self.count}"
        self.count += 1
        return self.add(GP(AtomMean(self.w, a), AtomKernel(self.w, a, a), measure=self.measures[m]), [m])

    def add(self, p, member):
        self.ps.append(p)
        self.member[len(self.ps) - 1] = list(member)
        return len(self.ps) - 1

    def copy(self, m, k):
        return self.add(self.measures[m](self.ps[k]), [m])

    def of(self, m):
        return [k for k in self.member if m in self.member[k]]

    def posterior(self, m, k=None, style="|", inducing=False):
        """Condition measure `m` on data of process `k`."""
        from stheno import Obs, PseudoObs

        w = self.w
        k = self.of(m)[0] if k is None else k
        x = w.input("xobs", 3)
        f, y = self.ps[k](x, 1), w.column("yobs", 3)
        members = self.of(m)
        if inducing:
            post = self.measures[m] | PseudoObs(self.ps[k](x), f, y)
        elif style == "|":
            post = self.measures[m] | (f, y)
        elif style == "pairs":
            post = self.measures[m].condition((f, y), (self.ps[k](w.input("xobs2", 3)), w.column("yobs2", 3)))
        elif style == "Obs":
            post = self.measures[m].condition(Obs(f, y))
        else:
            post = self.measures[m].condition(f, y)
        self.measures.append(post)
        n = len(self.measures) - 1
        for i in members:
            self.member[i].append(n)
        return n

    def shared(self, *ks):
        return [m for m in self.member[ks[0]] if all(m in self.member[k] for k in ks[1:])]

    def check(self, label, lookups=()):
        """All associations are as they should be."""
        w = self.w
        for k, p in enumerate(self.ps):
            w.true(f"{label}: own measure", p.measure is self.measures[self.member[k][0]])
            for m, measure in enumerate(self.measures):
                there = any(q is p for q in measure.ps)
                w.true(f"{label}: associated to exactly the shared measures", there == (m in self.member[k]))
        for k in lookups:
            p = self.ps[k]
            w.true(f"{label}: own mean and kernel", p.mean is p.measure.means[p] and p.kernel is p.measure.kernels[p])
            for m, measure in enumerate(self.measures):
                if m in self.member[k]:
                    # Everything in the measure can be looked up jointly.
                    measure.means[p]
                    for j in self.of(m):
                        measure.kernels[p, self.ps[j]]
                        measure.kernels[self.ps[j], p]
                else:
                    w.raises(f"{label}: unknown to other measures", RuntimeError, lambda: measure.means[p])
                    w.raises(f"{label}: unknown to other measures", RuntimeError, lambda: measure.kernels[p])

    def apply(self, op, *ks):
        return self.add(op(*[self.ps[k] for k in ks]), self.shared(*ks))


BOUND = "histories: up to two posteriors at each of three times"


@contract("operations of one process", *FUNCTIONS, bounded=BOUND)
def one(w):
    h = History(w)
    m = h.prior()
    if w.choose("own measure", "prior", "posterior") == "posterior":
        h.gp(m)
        m = h.posterior(m)
    else:
        h.gp(m)
    before = w.choose("posteriors before", 0, 1)
    for _ in range(before):
        h.posterior(m)
    k = h.copy(m, 0) if w.choose("process", "new", "copy") == "copy" else h.gp(m)
    for i in range(w.choose("posteriors after", 0, 1, 2)):
        h.posterior(m if w.choose(f"of {i}", "first", "last") == "first" else len(h.measures) - 1)
    ops = unary(w)
    op = w.choose("operation", *ops)
    r = h.apply(ops[op], k)
    # Derivatives of general kernels are out of reach: only the associations are checked.
    diff = op.startswith("diff")
    h.check(op, [] if diff else [r])
    if w.choose("posterior of result", False, True):
        h.posterior(m, None if op == "cross" or diff else r)
        s = h.apply(lambda a, b: a + b, r, k) if op != "cross" else r
        h.check("afterwards", [] if diff else [s])


@contract("operations of two processes", *FUNCTIONS, bounded=BOUND)
def two(w):
    h = History(w)
    m = h.prior()
    o = h.gp(m)
    if w.choose("posterior before", False, True):
        h.posterior(m)
    k = h.gp(m)
    for i in range(w.choose("posteriors between", 0, 1, 2)):
        h.posterior(m if i == 0 or w.choose("of", "first", "last") == "first" else len(h.measures) - 1)
    l = k if w.choose("second", "new", "same") == "same" else h.gp(m)
    for i in range(w.choose("posteriors after", 0, 1, *w.more(2))):
        h.posterior(m if i == 0 or w.choose("of later", "first", "last") == "first" else len(h.measures) - 1)
    ops = binary()
    op = w.choose("operation", *ops)
    r = h.apply(ops[op], *((k, l) if w.choose("order", "k, l", "l, k") == "k, l" else (l, k)))
    h.check(op, [r])
    more = w.choose("then", "nothing", "operation", "posterior")
    if more != "nothing":
        if more == "posterior":
            h.posterior(m)
        s = h.apply(ops["cross"], r, o) if "cross" in op else h.apply(ops["p + q"], o, r)
        h.check("afterwards", [s])


@contract("ways of conditioning", "stheno.model.measure:Measure.condition", "stheno.model.gp:GP.condition", bounded=BOUND)
def conditioning(w):
    h = History(w)
    m = h.prior()
    k = h.gp(m)
    if w.choose("of", "prior", "posterior") == "posterior":
        m = h.posterior(m)
    style = w.choose("style", "|", "pairs", "Obs", "condition", "inducing")
    l = h.gp(m)
    n = h.posterior(m, k, style, inducing=style == "inducing")
    h.gp(m)
    h.check("afterwards", [k, l])


@contract("conditioning a process", "stheno.model.gp:GP.condition", bounded=BOUND)
def process(w):
    h = History(w)
    k = h.gp(h.prior())
    p = h.ps[k]
    x, y = w.input("x", w.dim("k")), w.column("y", w.dim("k"))
    style = w.choose("style", "| tuple", "condition", "condition tuple")
    if style == "| tuple":
        q = p | (p(x, 1), y)
    elif style == "condition":
        q = p.condition(p(x, 1), y)
    else:
        q = p.condition((p(x, 1), y))
    h.measures.append(q.measure)
    h.member[k].append(1)
    h.add(q, [1])
    h.check("afterwards", [k, 1])
    w.true("another process", q is not p and q.measure is not p.measure)


@contract("processes of different measures", *FUNCTIONS, bounded=BOUND)
def different(w):
    h = History(w)
    m = h.prior()
    k = h.gp(m)
    kind = w.choose("other", "another prior", "posterior", "copy in a posterior", "copy in the prior's posterior")
    if kind == "another prior":
        l = h.gp(h.prior())
    else:
        n = h.posterior(m)
        l = h.gp(n) if kind == "posterior" else h.copy(n, k)
        if kind == "copy in the prior's posterior":
            h.posterior(m)
            h.posterior(n)
    o = h.gp(m)
    before = [list(measure.ps) for measure in h.measures]
    ops = binary()
    op = ops[w.choose("operation", *ops)]
    a, b = (k, l) if w.choose("order", "k, l", "l, k") == "k, l" else (l, k)
    x = w.input("x", w.dim("k"))
    how = w.choose("how", "operation", "observations", "sum in measure", "product in measure")
    from stheno import GP, Obs

    def attempt():
        if how == "operation":
            op(h.ps[a], h.ps[b])
        elif how == "observations":
            y = w.column("y", w.dim("k"))
            Obs((h.ps[a](x), y), (h.ps[b](x), y))
        elif how == "sum in measure":
            h.measures[0].sum(GP(), h.ps[a], h.ps[b])
        else:
            h.measures[0].mul(GP(), h.ps[a], h.ps[b])

    w.raises("rejected", Exception, attempt)
    for measure, ps in zip(h.measures, before):
        # `p - q` adds `-q` before it is rejected, which changes nothing that was there.
        w.true("no process lost", all(p is q for p, q in zip(ps, measure.ps)))
    h.check("after the error", [k, l, o])


class Unknown:
    """The parts of the groups of measures that the verifier does not know.

    `first` is the measure in which all operands were constructed.  `other` is any other measure: loops over groups
    are cut, and their bodies are executed for the first measure and for this one.
    """

    def __init__(self, w):
        self.w = w
        self.calls = []
        self.first, self.other = Abstract(self, "first"), Abstract(self, "other")


OPERATIONS = ("sum", "mul", "shift", "stretch", "transform", "select", "diff", "cross")


class Abstract:
    """An arbitrary measure, of which only the contracts of the operations are known."""

    def __init__(self, u, label):
        self.u, self.label = u, label

    def __repr__(self):
        return f"<{self.label} measure>"

    def __getattr__(self, name):
        from pyvc.core import Unsupported
        from stheno import GP

        if name not in OPERATIONS:
            raise Unsupported(f"unknown use of an arbitrary measure: {name}")

        def operation(*args):
            res, *operands = args
            for p in operands:
                if isinstance(p, GP):
                    self.u.w.true("operands belong to the measure", self.u.group(p).has(self))
            group = self.u.group(res)
            if not group.built:
                raise Unsupported("the result is an operand")
            # The contract of the operation: the result is attached to the measure.
            self.u.calls.append((self, name, args))
            list.append(group, self)
            return res

        return operation


class Group(list):
    """The measures of a process: `Unknown.first`, and others.

    Loops over the others are cut: the body is executed for an arbitrary one, and must leave everything that it can
    refer to as it was, apart from the result of the operations, to which the measure is appended.
    """

    def __init__(self, u, label, built=False):
        list.__init__(self)
        self.u, self.label, self.built = u, label, built
        self.member = None

    def has(self, m):
        if self.built:
            return any(m is n for n in list.__iter__(self))
        if m is self.u.first:
            return True
        if m is not self.u.other:
            _unknown(self)
        if self.member is None:
            self.member = self.u.w.choose(f"{self.label} belongs to the other measure", True, False)
        return self.member

    __contains__ = has

    def __getitem__(self, i):
        if i == 0 and not isinstance(i, slice) and self.has(self.u.first):
            return self.u.first
        _unknown(self)

    def __bool__(self):
        return self.has(self.u.first)

    def __iter__(self):
        if self.built and not self.has(self.u.first):
            _unknown(self)
        return Cut(self)

    def _unknown(self, *_):
        _unknown(self)

    __len__ = __reversed__ = __eq__ = __ne__ = __add__ = __radd__ = __iadd__ = __mul__ = __delitem__ = _unknown
    __setitem__ = append = extend = insert = remove = pop = clear = index = count = sort = reverse = copy = _unknown
    __hash__ = None


def _unknown(self):
    from pyvc.core import Unsupported

    raise Unsupported("unknown use of a group of measures")


def _place(frame):
    """The kind of loop that a frame executes."""
    import ast
    import dis
    import inspect

    code = frame.f_code
    if dis.opname[code.co_code[frame.f_lasti]] != "FOR_ITER" or code.co_name == "<genexpr>":
        return None
    line, _, col, _ = list(code.co_positions())[frame.f_lasti // 2]
    tree = ast.parse(inspect.getsource(inspect.getmodule(code)))
    best = None
    for parent in ast.walk(tree):
        for node in ast.iter_child_nodes(parent):
            if isinstance(node, (ast.For, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                if (node.lineno, node.col_offset) <= (line, col) < (node.end_lineno, node.end_col_offset):
                    if best is None or (node.lineno, node.col_offset) >= (best[0].lineno, best[0].col_offset):
                        best = node, parent
    if best is None:
        return None
    node, parent = best
    if isinstance(node, ast.For):
        # Leaving the loop early is not an iteration of it.
        early = any(isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.NamedExpr)) for n in ast.walk(node))
        return None if early or node.orelse else "for"
    if isinstance(node, ast.ListComp) and isinstance(parent, ast.Return):
        if len(node.generators) == 1 and not any(isinstance(n, (ast.NamedExpr, ast.Yield)) for n in ast.walk(node)):
            return "comprehension"
    return None


class Cut:
    def __init__(self, group):
        self.group, self.u, self.step = group, group.u, 0

    def __iter__(self):
        return self

    def locals(self, frame):
        """What the body of the loop can refer to, except for the measures themselves."""
        u, out = self.u, {}

        def freeze(v, depth=0):
            if isinstance(v, Group):
                return "group", id(v)
            if isinstance(v, (list, tuple, set, frozenset)) and depth < 4:
                return type(v), id(v) if isinstance(v, (list, set)) else 0, tuple(freeze(x, depth + 1) for x in v)
            if isinstance(v, dict) and depth < 4:
                return dict, id(v), tuple((freeze(k, depth + 1), freeze(x, depth + 1)) for k, x in v.items())
            if isinstance(v, (int, float, str, bool)):
                return type(v), v
            if hasattr(v, "__dict__") and type(v).__module__.startswith("stheno") and depth < 4:
                return type(v), id(v), freeze(dict(vars(v)), depth + 1)[2]
            return "object", id(v)

        for name, v in frame.f_locals.items():
            if not isinstance(v, Abstract):
                out[name] = freeze(v)
        return out

    def __next__(self):
        import sys

        from pyvc.core import Unsupported

        frame, u = sys._getframe(1), self.u
        if self.step == 0:
            self.kind = _place(frame)
            if self.kind is None:
                raise Unsupported("a loop over measures of unknown form")
            self.step, self.start = 1, len(u.calls)
            return u.first
        if self.step == 1:
            self.calls = u.calls[self.start :]
            if not self.group.has(u.other):
                self.step = 3
                raise StopIteration
            self.step, self.before, self.start = 2, self.locals(frame), len(u.calls)
            return u.other
        if self.step == 2:
            # The iteration for an arbitrary measure.
            self.step = 3
            if self.locals(frame) != self.before:
                raise Unsupported("iterations of a loop over measures depend on each other")
            calls = u.calls[self.start :]
            if [c[0] for c in calls] != [u.other] * len(self.calls) or [c[0] for c in self.calls] != [u.first] * len(calls):
                raise Unsupported("iterations of a loop over measures use other measures")
            for (_, n1, args1), (_, n2, args2) in zip(self.calls, calls):
                u.w.true("the same operation in all measures", n1 == n2 and len(args1) == len(args2))
                u.w.true("the same operands in all measures", all(a is b or (not hasattr(a, "__dict__") and a == b) for a, b in zip(args1, args2)))
        raise StopIteration


class Groups:
    """Processes with arbitrary groups of measures."""

    def __init__(self, w, *names):
        from pyvc.core import Unsupported
        from stheno import GP, Measure

        self.u = Unknown(w)
        AtomKernel, _ = w.classes()
        # Find out how processes store measures.
        m = Measure()
        probe = GP(AtomKernel(w, "p", "p"), measure=m)
        post = w.posterior(m, "P.")
        attrs = [a for a, v in vars(probe).items() if isinstance(v, list) and len(v) == 2 and v[0] is m and v[1] is post]
        if len(attrs) != 1 or [a for a, v in vars(GP()).items() if v == []] != attrs or set(vars(GP())) != set(attrs):
            raise Unsupported("unknown representation of the measures of a process")
        self.attr = attrs[0]
        self.made = []
        self.u.group = self.group
        self.operands = []
        for a in names:
            p = GP()
            setattr(p, self.attr, Group(self.u, a))
            self.operands.append(p)

    def group(self, p):
        g = vars(p)[self.attr]
        if not isinstance(g, Group):
            # A new process.
            if g:
                _unknown(self)
            g = Group(self.u, "result", built=True)
            setattr(p, self.attr, g)
        return g


def abstract_scene(w, n):
    """Replace callees by their contracts: the own measure is the first, and the measures that are shared."""
    import contextlib

    import stheno.model.gp as module
    from stheno import GP

    g = Groups(w, *"pqr"[:n])
    u = g.u

    @contextlib.contextmanager
    def installed(intersection=True):
        saved = vars(GP)["measure"], module.intersection_measure_group
        GP.measure = property(lambda p: g.group(p)[0])

        def shared(*ps):
            r = Group(u, "shared", built=True)
            for m in (u.first, u.other):
                if all(g.group(p).has(m) for p in ps):
                    list.append(r, m)
            return r

        try:
            if intersection:
                module.intersection_measure_group = shared
            yield
        finally:
            GP.measure, module.intersection_measure_group = saved

    return g, installed


@contract("the measures that processes share: any number of measures", "stheno.model.gp:intersection_measure_group", "stheno.model.gp:assert_same_measure")
def shared_measures(w):
    """The groups are arbitrary: the loop over them is cut."""
    from stheno.model.gp import intersection_measure_group

    if not w.sym:
        return
    n = w.choose("processes", 1, 2, 3)
    g, installed = abstract_scene(w, n)
    ps = g.operands
    if n == 2 and w.choose("same", False, True):
        ps = [ps[0], ps[0]]
    with installed(intersection=False):
        got = intersection_measure_group(*ps)
        want = [m for m in (g.u.first, g.u.other) if all(g.group(p).has(m) for p in ps)]
        got = list(list.__iter__(got)) if isinstance(got, Group) else got
        if not isinstance(got, (list, tuple)):
            _unknown(None)
        w.true("exactly the shared measures, in order", len(got) == len(want) and all(a is b for a, b in zip(got, want)))
        w.true("operands unchanged", all(not g.group(p).built for p in ps))


@contract("operations in any number of measures", *FUNCTIONS)
def any_number(w):
    """The groups of measures of the operands are arbitrary.

    Loops over measures are cut and the operations of measures are replaced by their contract (see `operations of a
    measure`): the result is attached to exactly the measures that the operands share, the own measure first.
    """
    if not w.sym:
        return
    one, two = unary(w), binary()
    op = w.choose("operation", *one, *two)
    arity = 1 if op in one and op not in two else 2
    g, installed = abstract_scene(w, arity)
    if op == "cross":
        arity = w.choose("arity", 1, 2)
    u = g.u
    with installed():
        ps = g.operands
        if arity == 1:
            r = (one[op] if op in one else two[op])(ps[0])
            ps = ps[:1]
        else:
            if len(ps) < 2:
                return
            ps = [ps[0], ps[0]] if w.choose("same", False, True) else ps
            r = two[op](*ps)
        want = [m for m in (u.first, u.other) if all(g.group(p).has(m) for p in ps)]
        got = list(list.__iter__(g.group(r)))
        w.true("a new process", all(r is not p for p in ps))
        w.true("exactly the shared measures, the own first", len(got) == len(want) and all(a is b for a, b in zip(got, want)))
        w.true("operands unchanged", all(not g.group(p).built for p in g.operands))


@contract("operations of a measure", "stheno.model.measure:Measure._add_p", "stheno.model.measure:Measure._update", "stheno.model.measure:Measure.add_independent_gp")
def in_measure(w):
    """The contract that `operations in any number of measures` uses."""
    from stheno import GP

    h = History(w)
    m = h.prior()
    k, l = h.gp(m), h.gp(m)
    for _ in range(w.choose("posteriors", 0, 1, 2)):
        m = h.posterior(m)
    other = h.prior()
    o = h.gp(other)
    p, q, measure = h.ps[k], h.ps[l], h.measures[m]
    f, c = w.fn("f"), w.num("c")
    op = {
        "sum of processes": lambda r: measure.sum(r, p, q),
        "sum with itself": lambda r: measure.sum(r, p, p),
        "sum with number": lambda r: measure.sum(r, p, c),
        "number first": lambda r: measure.sum(r, c, p),
        "sum with function": lambda r: measure.sum(r, p, f),
        "times number": lambda r: measure.mul(r, p, c),
        "number times": lambda r: measure.mul(r, 2, p),
        "times function": lambda r: measure.mul(r, p, f),
        "product": lambda r: measure.mul(r, p, q),
        "square": lambda r: measure.mul(r, p, p),
        "shift": lambda r: measure.shift(r, p, c),
        "stretch": lambda r: measure.stretch(r, p, 2),
        "transform": lambda r: measure.transform(r, p, w.fn("t", 1)),
        "select": lambda r: measure.select(r, p, 0),
        "diff": lambda r: measure.diff(r, p, 0),
        "cross": lambda r: measure.cross(r, p, q),
        "cross of one": lambda r: measure.cross(r, p),
        "cross with repetition": lambda r: measure.cross(r, p, q, p),
    }
    name = w.choose("operation", *op)
    # The result may already be attached to other measures.
    before = w.choose("attached before", False, True)
    r = GP()
    member = []
    if before:
        h.measures[other].shift(r, h.ps[o], 1)
        member = [other]
    got = op[name](r)
    w.true("gives the result", got is r)
    h.add(r, member + [m])
    w.true("attached once", sum(x is r for x in measure.ps) == 1)
    h.check(name, [])


@contract(
    "random histories",
    *FUNCTIONS,
    bounded="histories of up to 25 operations",
    numeric_only="random histories",
    runs=240,
)
def histories(w):
    from stheno import cross

    h = History(w)
    h.gp(h.prior())
    ops1 = {k: v for k, v in unary(w).items() if k not in ("cross", "transform", "select", "diff", "diff_approx")}
    ops2 = {"p + q": lambda p, q: p + q, "p - q": lambda p, q: p - q, "p * q": lambda p, q: p * q}
    for _ in range(w.rng.randint(3, 25)):
        e = w.rng.choice(["prior", "gp", "copy", "posterior", "posterior", "unary", "binary", "binary", "cross"])
        m = int(w.rng.randint(len(h.measures)))
        k, l = (int(i) for i in w.rng.randint(len(h.ps), size=2))
        if e == "prior" and w.rng.rand() < 0.3:
            h.gp(h.prior())
        elif e == "gp":
            h.gp(m)
        elif e == "copy":
            m = int(w.rng.choice(h.member[k]))
            h.copy(m, k)
        elif e == "posterior" and len(h.measures) < 8:
            if h.of(m):
                h.posterior(m, int(w.rng.choice(h.of(m))), str(w.rng.choice(["|", "Obs", "condition"])))
        elif e == "unary":
            h.apply(ops1[str(w.rng.choice(sorted(ops1)))], k)
        elif e in ("binary", "cross"):
            op = ops2[str(w.rng.choice(sorted(ops2)))] if e == "binary" else lambda p, q: cross(p, q)
            if h.member[k][0] == h.member[l][0]:
                if e == "binary":
                    h.apply(op, k, l)
                else:
                    p, member = cross(h.ps[k], h.ps[l]), h.shared(k, l)
                    w.true("product: own measure", p.measure is h.measures[member[0]])
                    for j, measure in enumerate(h.measures):
                        w.true("product: shared measures", any(q is p for q in measure.ps) == (j in member))
            else:
                w.raises("rejected", Exception, lambda: op(h.ps[k], h.ps[l]))
                h.check("after the error")
    h.check("finally")
