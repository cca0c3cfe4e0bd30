"""C04: lazy vectors and matrices resolve every index to exactly one stable value."""
from pyvc.world import contract

FUNCTIONS = (
    "stheno.lazy:_resolve_index",
    "stheno.lazy:LazyTensor._expand_key",
    "stheno.lazy:LazyTensor.__setitem__",
    "stheno.lazy:LazyTensor.__getitem__",
    "stheno.lazy:LazyTensor._set",
    "stheno.lazy:LazyTensor._get",
    "stheno.lazy:LazyVector.add_rule",
    "stheno.lazy:LazyVector._build",
    "stheno.lazy:LazyMatrix.add_rule",
    "stheno.lazy:LazyMatrix.add_left_rule",
    "stheno.lazy:LazyMatrix.add_right_rule",
    "stheno.lazy:LazyMatrix._build",
)


class Index:
    """An index object.  It is equal to every other index: only the identity counts."""

    def __eq__(self, other):
        return isinstance(other, Index)

    def __hash__(self):
        return 1


class Value:
    """A value that was built."""

    def __eq__(self, other):
        return isinstance(other, Value)

    def __hash__(self):
        return 1


class Model:
    """What a lazy vector or matrix is: the specification."""

    def __init__(self, rank):
        self.rank = rank
        self.store = {}
        self.rules = {"general": [], "left": [], "right": []}
        self.builds = []

    def rule(self, key):
        """The first applicable rule."""
        if self.rank == 1:
            for r, (dom, tag) in enumerate(self.rules["general"]):
                if key in dom:
                    return tag, (key,)
            return None
        i, j = key
        for dom, tag in self.rules["general"]:
            if i in dom and j in dom:
                return tag, (i, j)
        for l, dom, tag in self.rules["left"]:
            if i == l and j in dom:
                return tag, (j,)
        for r, dom, tag in self.rules["right"]:
            if i in dom and j == r:
                return tag, (i,)
        return None


class Subject:
    """The real thing next to the specification."""

    def __init__(self, w, rank, n):
        from stheno.lazy import LazyMatrix, LazyVector

        self.w, self.rank = w, rank
        self.real = LazyVector() if rank == 1 else LazyMatrix()
        self.model = Model(rank)
        self.objs = [Index() for _ in range(n)]
        self.num = {id(o): k for k, o in enumerate(self.objs)}
        self.calls = []
        self.count = 0

    def key(self, key, form):
        """A key for the real thing."""
        f = lambda k, how: self.objs[k] if how == "object" else id(self.objs[k])
        if self.rank == 1:
            k = f(key, form[0])
            return (k,) if form[-1] == "tuple" else k
        if key[0] == key[1] and form[-1] == "single":
            return f(key[0], form[0])
        return f(key[0], form[0]), f(key[1], form[1])

    def builder(self, tag, fails=False):
        def build(*args):
            self.calls.append((tag, tuple(self.num[a] for a in args)))
            if fails:
                raise KeyError("builder fails")
            v = Value()
            v.tag, v.args = tag, tuple(self.num[a] for a in args)
            return v

        return build

    def add(self, kind, dom, fixed=None, fails=False):
        tag = f"rule {self.count}"
        self.count += 1
        s = {id(self.objs[k]) for k in dom}
        b = self.builder(tag, fails)
        if kind == "general":
            self.real.add_rule(s, b)
            self.model.rules["general"].append((frozenset(dom), tag))
        elif kind == "left":
            self.real.add_left_rule(id(self.objs[fixed]), s, b)
            self.model.rules["left"].append((fixed, frozenset(dom), tag))
        else:
            self.real.add_right_rule(id(self.objs[fixed]), s, b)
            self.model.rules["right"].append((fixed, frozenset(dom), tag))
        # The domain is that at the time of adding.
        s.clear()
        s.update(id(o) for o in self.objs)
        return tag

    def set(self, key, form):
        v = Value()
        self.real[self.key(key, form)] = v
        self.model.store[key] = v

    def get(self, name, key, form):
        w = self.w
        before = len(self.calls)
        want = self.model.rule(key)
        k = self.key(key, form)
        if key in self.model.store:
            w.true(f"{name}: the stored value", self.real[k] is self.model.store[key])
            w.true(f"{name}: not built again", len(self.calls) == before)
        elif want is None:
            w.raises(f"{name}: not covered", RuntimeError, lambda: self.real[k])
            w.true(f"{name}: nothing built", len(self.calls) == before)
        else:
            v = self.real[k]
            ok = isinstance(v, Value) and (getattr(v, "tag", None), getattr(v, "args", None)) == want
            w.true(f"{name}: built by the first applicable rule", ok, f"{getattr(v, 'tag', v)} instead of {want}")
            w.true(f"{name}: built once", self.calls[before:] == [want])
            self.model.store[key] = v


def all_keys(n, rank):
    return list(range(n)) if rank == 1 else [(i, j) for i in range(n) for j in range(n)]


def sweep(w, s, name, forms=(("object", "object", "tuple"), ("id", "id", "single"))):
    for key in all_keys(len(s.objs), s.rank):
        s.get(f"{name} {key}", key, forms[0])
    for key in all_keys(len(s.objs), s.rank):
        s.get(f"{name} {key} again", key, forms[1])


@contract("LazyVector and LazyMatrix: histories", *FUNCTIONS, bounded="histories of up to 40 operations on 4 indices", numeric_only="random histories", runs=600)
def histories(w):
    rank = w.choose("rank", 1, 2)
    n = 4
    s = Subject(w, rank, n)
    keys = all_keys(n, rank)
    for step in range(w.rng.randint(1, 40)):
        op = w.choose(f"{step} op", "get", "get", "set", "rule", "rule", "left", "right")
        form = (w.choose("f0", "object", "id"), w.choose("f1", "object", "id"), w.choose("f2", "single", "tuple", "-"))
        key = keys[w.rng.randint(len(keys))]
        dom = [k for k in range(n) if w.rng.rand() < 0.6]
        if op == "get":
            s.get(f"get {key}", key, form)
        elif op == "set":
            s.set(key, form)
        elif op == "rule" or rank == 1:
            s.add("general", dom)
        else:
            s.add(op, dom, w.rng.randint(n))
    sweep(w, s, "finally")


@contract("LazyVector: three rules and an assignment", *FUNCTIONS, bounded="three rules, two indices; see `first applicable rule` for any number of rules")
def vector(w):
    s = Subject(w, 1, 2)
    doms = ([], [0], [1], [0, 1])
    form = (w.choose("form", "object", "id"), None, w.choose("tuple", "tuple", "-"))
    for k in range(3):
        s.add("general", w.choose(f"domain {k}", *doms))
        if w.choose(f"look up after {k}", False, True):
            s.get(f"after rule {k}", 0, form)
    if w.choose("assign", False, True):
        s.set(0, form)
    sweep(w, s, "finally")


@contract("LazyMatrix: a rule of every kind", *FUNCTIONS, bounded="up to three rules, two indices; see `first applicable rule` for any number of rules", split=4)
def matrix(w):
    s = Subject(w, 2, 2)
    doms = ([0], [1], [0, 1])
    order = w.choose("order", "glr", "rlg", "lrl", "rgr", "ll", "rr", "gg", "lg", "rl")
    for k, c in enumerate(order):
        dom = w.choose(f"domain {k}", *doms)
        if c == "g":
            s.add("general", dom)
        else:
            s.add("left" if c == "l" else "right", dom, w.choose(f"fixed {k}", 0, 1))
    when = w.choose("assign", "never", "first", "later")
    if when == "first":
        s.set((0, 1), ("object", "id", "-"))
    sweep(w, s, "finally")
    if when == "later":
        s.set((0, 1), ("id", "object", "-"))
        sweep(w, s, "after assignment")


@contract("assignments", "stheno.lazy:LazyTensor.__setitem__", "stheno.lazy:LazyTensor._set")
def assignments(w):
    rank = w.choose("rank", 1, 2)
    s = Subject(w, rank, 2)
    keys = all_keys(2, rank)
    if w.choose("rule", False, True):
        s.add("general", [0, 1])
    forms = [(a, b, c) for a in ("object", "id") for b in ("object", "id") for c in ("single", "tuple")]
    for k in range(2):
        s.set(keys[w.choose(f"key {k}", *range(len(keys)))], w.choose(f"form {k}", *forms))
    sweep(w, s, "finally")


@contract("uncovered indices", *FUNCTIONS)
def uncovered(w):
    rank = w.choose("rank", 1, 2)
    s = Subject(w, rank, 2)
    s.add("general", w.choose("domain", [], [1]))
    key = 0 if rank == 1 else (w.choose("left", 0, 1), 0)
    form = (w.choose("form", "object", "id"),) * 2 + ("-",)
    for _ in range(2):
        s.get("uncovered", key, form)
    # Nothing has changed: the next rule or assignment decides.
    if w.choose("then", "rule", "assignment") == "rule":
        s.add("general", [0, 1])
    else:
        s.set(key, form)
    sweep(w, s, "afterwards")


@contract("failing and recursive builders", "stheno.lazy:LazyTensor._get")
def builders(w):
    from stheno.lazy import LazyMatrix, LazyVector

    rank = w.choose("rank", 1, 2)
    t = LazyVector() if rank == 1 else LazyMatrix()
    a, b = Index(), Index()
    ka, kb = (id(a), id(b)) if rank == 1 else ((id(a), id(b)), (id(b), id(b)))
    calls, state = [], {"fail": w.choose("fails first", True, False)}

    def build(*i):
        calls.append(i)
        if i[0] == id(a):
            inner = t[kb]
            if state["fail"]:
                raise KeyError("fails")
            return ("a", inner)
        return ("b",) + (Value(),)

    t.add_rule({id(a), id(b)}, build)
    if state["fail"]:
        w.raises("the error of the builder", KeyError, lambda: t[ka])
        state["fail"] = False
    v = t[ka]
    w.true("built", v[0] == "a")
    w.true("refers to the stored value", v[1] is t[kb])
    w.true("same object", t[ka] is v)
    w.true("inner built once", sum(i[0] == id(b) for i in calls) == 1)


class Awkward:
    """A value that can only be passed around."""

    def _no(self, *_):
        raise TypeError("a stored value was inspected")

    __bool__ = __eq__ = __ne__ = __hash__ = __len__ = __iter__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    __call__ = __contains__ = __getitem__ = _no


def value(w, name):
    import numpy as np

    kinds = dict(none=None, false=False, zero=0, empty="", tuple=(), nan=float("nan"), array=np.zeros(3), awkward=Awkward())
    kinds["not implemented"], kinds["exception"], kinds["type"] = NotImplemented, KeyError("value"), Awkward
    return kinds[w.choose(name, *kinds)]


@contract("any value", *FUNCTIONS)
def values(w):
    """Values are only passed around: whatever is built or assigned is what a lookup gives."""
    from stheno.lazy import LazyMatrix, LazyVector

    rank = w.choose("rank", 1, 2)
    t = LazyVector() if rank == 1 else LazyMatrix()
    a, b = Index(), Index()
    key = w.choose("key", *((a, (a,)) if rank == 1 else (a, (a, b))))
    v, calls = value(w, "built"), []
    kind = w.choose("rule", "general", *(("left", "right") if rank == 2 else ()))
    build = lambda *i: calls.append(i) or v
    if kind == "general":
        t.add_rule({id(a), id(b)}, build)
    elif kind == "left":
        t.add_left_rule(id(a), {id(a), id(b)}, build)
    else:
        t.add_right_rule(id(b) if isinstance(key, tuple) else id(a), {id(a), id(b)}, build)
    built = w.choose("look up", True, False)
    if built:
        w.true("the built value", t[key] is v)
        w.true("the same value again", t[key] is v)
        w.true("built once", len(calls) == 1)
    if w.choose("assign", True, False):
        v = value(w, "assigned")
        t[key] = v
        w.true("the assigned value", t[key] is v)
        w.true("not built again", len(calls) == built)
    w.true("finally", t[key] is v)
    w.true("finally again", t[key] is v)
    w.true("built at most once", len(calls) <= 1)


@contract(
    "first applicable rule: any number of rules",
    "stheno.lazy:LazyVector._build",
    "stheno.lazy:LazyMatrix._build",
    "stheno.lazy:LazyTensor._get",
)
def any_number(w):
    """The lists of rules are arbitrary: loops over them are cut by their invariant.

    At the beginning of every iteration, no earlier rule of the list is applicable.  The invariant is checked at the
    end of every iteration, it is all that is known of earlier iterations, and the loop ends only if it holds for
    all rules.
    """
    if not w.sym:
        return
    import z3
    from pyvc.core import PathEnd, SymBool, SymInt, Unsupported, ctx
    from stheno.lazy import LazyMatrix, LazyVector

    c = ctx()
    rank = w.choose("rank", 1, 2)
    objs = [Index(), Index()]
    i, j = 0, w.choose("right index", 0, 1)
    t = LazyVector() if rank == 1 else LazyMatrix()
    ids = [id(o) for o in objs]

    class Domain:
        """Domain of a rule."""

        def __init__(self, f, k):
            self.f, self.k = f, k

        def __contains__(self, x):
            return bool(SymBool(self.f(self.k, z3.IntVal(ids.index(x))), f"{self.f} {self.k} contains {ids.index(x)}"))

    class Fixed:
        """Fixed index of a rule."""

        def __init__(self, f, k):
            self.f, self.k = f, k

        def __eq__(self, x):
            return bool(SymBool(self.f(self.k) == ids.index(x), f"{self.f} {self.k} is {ids.index(x)}"))

        __hash__ = None

    built = []

    class Rules(list):
        """An arbitrary list of rules in the format of `template`."""

        def __init__(self, kind, template, positions):
            self.kind, self.template = kind, template
            self.member = z3.Function(f"{kind} domain", z3.IntSort(), z3.IntSort(), z3.BoolSort())
            self.fixed = z3.Function(f"{kind} index", z3.IntSort(), z3.IntSort())
            self.n = z3.Int(f"number of {kind} rules")
            self.positions = positions

        def applies(self, k):
            if self.kind == "general":
                r = self.member(k, i)
                return z3.And(r, self.member(k, j)) if rank == 2 else r
            if self.kind == "left":
                return z3.And(self.fixed(k) == i, self.member(k, j))
            return z3.And(self.member(k, i), self.fixed(k) == j)

        def none(self, hi):
            k = z3.Int("k")
            return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < hi), z3.Not(self.applies(k))))

        def element(self, k):
            def build(*args):
                built.append((self, k, tuple(ids.index(a) for a in args)))
                return built[-1]

            values = {"domain": lambda: Domain(self.member, k), "builder": lambda: build, "fixed": lambda: Fixed(self.fixed, k)}
            return tuple(values[p]() for p in self.positions)

        def __iter__(self):
            return Iterator(self)

        def _no(self, *_):
            raise Unsupported("unknown use of a list of rules")

        __getitem__ = __len__ = __reversed__ = __add__ = __bool__ = _no

    class Iterator:
        def __init__(self, rules):
            self.rules, self.k = rules, None

        def __iter__(self):
            return self

        def __next__(self):
            r = self.rules
            if self.k is not None:
                # An iteration ended: the invariant must be preserved.
                if not c.entails(z3.Not(r.applies(self.k))):
                    # The loop needs another invariant: no verdict.
                    raise Unsupported(f"the invariant of the loop over {r.kind} rules is not preserved")
                w.true(f"{r.kind} rules: the invariant is preserved", True)
                raise PathEnd
            if w.choose(f"{r.kind} loop", "iteration", "end") == "end":
                c.assume(r.none(r.n))
                raise StopIteration
            self.k = z3.Int(f"{r.kind} k")
            c.assume(z3.And(0 <= self.k, self.k < r.n, r.none(self.k)))
            return r.element(self.k)

    # Find out how the rules are stored.
    def find(kind, add):
        before = {a: len(v) for a, v in vars(t).items() if isinstance(v, list)}
        add()
        grown = [a for a, n in before.items() if len(getattr(t, a)) == n + 1]
        if len(grown) != 1 or not isinstance(getattr(t, grown[0])[-1], tuple):
            raise Unsupported("unknown representation of the rules")
        tup = getattr(t, grown[0])[-1]
        pos = []
        for x in tup:
            if isinstance(x, (set, frozenset)):
                pos.append("domain")
            elif callable(x):
                pos.append("builder")
            elif isinstance(x, int):
                pos.append("fixed")
            else:
                raise Unsupported("unknown representation of the rules")
        return grown[0], Rules(kind, tup, pos)

    nop = lambda *args: None
    lists = dict([find("general", lambda: t.add_rule({ids[0]}, nop))])
    if rank == 2:
        lists.update([find("left", lambda: t.add_left_rule(ids[0], {ids[0]}, nop))])
        lists.update([find("right", lambda: t.add_right_rule(ids[0], {ids[0]}, nop))])
    if len(lists) != (1 if rank == 1 else 3):
        raise Unsupported("unknown representation of the rules")
    for a, r in lists.items():
        setattr(t, a, r)
        c.assume(r.n >= 0)
    by_kind = {r.kind: r for r in lists.values()}
    kinds = ("general", "left", "right")[: 1 if rank == 1 else 3]
    # Some other entries are in the store.
    other = Value()
    t[objs[1] if rank == 1 else (objs[1], objs[0])] = other
    stored = w.choose("stored", False, True)
    key = objs[i] if rank == 1 else (objs[i], objs[j])
    if stored:
        v = Value()
        t[key] = v
        w.true("stored value", t[key] is v)
        w.true("no rule is used", not built)
        return
    try:
        got = t[key]
    except RuntimeError:
        w.true("nothing built", not built)
        for kind in kinds:
            w.true(f"no {kind} rule applies", c.entails(by_kind[kind].none(by_kind[kind].n)))
        return
    w.true("built once", len(built) == 1 and got is built[0])
    rules, k, args = built[0]
    for kind in kinds[: kinds.index(rules.kind)]:
        w.true(f"no {kind} rule applies before a {rules.kind} rule", c.entails(by_kind[kind].none(by_kind[kind].n)))
    w.true("the rule applies", c.entails(rules.applies(k)))
    w.true("no earlier rule applies", c.entails(rules.none(k)))
    want = {"general": (i, j)[:rank], "left": (j,), "right": (i,)}[rules.kind]
    w.true("arguments of the builder", args == want)
    w.true("same object afterwards", t[key] is got and len(built) == 1)
    w.true("other entries unchanged", t[objs[1] if rank == 1 else (objs[1], objs[0])] is other)
