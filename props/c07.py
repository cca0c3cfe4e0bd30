"""C07: names and processes of a measure form a consistent two-way dictionary."""
from pyvc.world import contract

FUNCTIONS = (
    "stheno.model.measure:Measure.name",
    "stheno.model.measure:Measure.__getitem__",
    "stheno.model.gp:GP.name",
    "stheno.model.gp:GP.__init__",
)
NAMES = ("a", "b", "c")


class Names:
    """Measures and the specification of their names."""

    def __init__(self, w):
        self.w = w
        self.measures, self.ps, self.member = [], [], []
        self.names = []  # Per measure, from names to process numbers.

    def prior(self):
        from stheno import Measure

        self.measures.append(Measure())
        self.names.append({})
        return len(self.measures) - 1

    def posterior(self, m):
        k = [k for k, ms in enumerate(self.member) if m in ms]
        self.measures.append(self.w.posterior(self.measures[m], "P."))
        self.names.append({})
        for i in k:
            self.member[i].append(len(self.measures) - 1)
        return len(self.measures) - 1

    def gp(self, m, name=None):
        """Make a new process that possibly wants a name."""
        from stheno import GP

        AtomKernel, _ = self.w.classes()
        measure = self.measures[m]
        taken = name is not None and name in self.names[m]
        n = len(measure.ps)
        kernel = AtomKernel(self.w, "p", "p")
        make = (lambda: GP(kernel, measure=measure, name=name)) if name else (lambda: GP(kernel, measure=measure))
        if taken:
            self.w.raises("taken name rejected", RuntimeError, make)
            if len(measure.ps) == n:
                return None
            p = measure.ps[-1]
        else:
            p = make()
        self.ps.append(p)
        self.member.append([m])
        if name and not taken:
            self.names[m][name] = len(self.ps) - 1
        return len(self.ps) - 1

    def allowed(self, m, k, name):
        return self.names[m].get(name, k) == k

    def _set(self, m, k, name):
        names = self.names[m]
        for old in [n for n, i in names.items() if i == k]:
            del names[old]
        names[name] = k

    def give(self, m, k, name):
        """Name a process in one measure."""
        if self.allowed(m, k, name):
            self.measures[m].name(self.ps[k], name)
            self._set(m, k, name)
        else:
            self.w.raises("taken name rejected", RuntimeError, lambda: self.measures[m].name(self.ps[k], name))

    def rename(self, k, name):
        """Name a process in all its measures."""
        if all(self.allowed(m, k, name) for m in self.member[k]):
            self.ps[k].name = name
            for m in self.member[k]:
                self._set(m, k, name)
        else:
            self.w.raises("taken name rejected", RuntimeError, lambda: setattr(self.ps[k], "name", name))

    def check(self, label):
        w = self.w
        for m, measure in enumerate(self.measures):
            names = self.names[m]
            by_process = {k: n for n, k in names.items()}
            w.true("one name each", len(by_process) == len(names))
            for n in NAMES:
                if n in names:
                    w.true(f"{label}: process of a name", measure[n] is self.ps[names[n]])
                else:
                    w.raises(f"{label}: unknown name", KeyError, lambda: measure[n])
            for k, p in enumerate(self.ps):
                if k in by_process:
                    w.true(f"{label}: name of a process", measure[p] == by_process[k])
                    w.true(f"{label}: inverse", measure[measure[p]] is p)
                else:
                    w.raises(f"{label}: unnamed process", KeyError, lambda: measure[p])
        for k, p in enumerate(self.ps):
            own = [n for n, i in self.names[self.member[k][0]].items() if i == k]
            if own:
                w.true(f"{label}: name in the own measure", p.name == own[0])
            else:
                w.raises(f"{label}: no name in the own measure", KeyError, lambda: p.name)


BOUND = "histories of three operations on up to five processes and four measures (random: 40)"


@contract("histories", *FUNCTIONS, bounded=BOUND)
def histories(w):
    s = Names(w)
    m = s.prior()
    s.gp(m)
    s.gp(m)
    s.posterior(m)
    s.gp(m)  # Only in the prior.
    steps = [("rename", k, n) for k in (0, 1, 2) for n in ("a", "b")]
    steps += [("give", i, k, n) for i in (0, 1) for k in (0, 1) for n in ("a", "b")]
    steps += [("gp", i, n) for i in (0, 1) for n in ("a", "b")]
    steps += [("posterior", 0), ("posterior", 1)]
    for i in range(3):
        op, *args = w.choose(f"step {i}", *steps)
        getattr(s, op)(*args)
    s.check("finally")


@contract("one operation in any state", *FUNCTIONS)
def one(w):
    """Dictionaries are local: an operation sees the old name of the process and the holder of the new name."""
    s = Names(w)
    m = s.prior()
    p, q, r = s.gp(m), s.gp(m), s.gp(m)
    n = w.choose("posteriors", 0, 1, 2)
    for _ in range(n):
        s.posterior(m)
    for i in range(n + 1):
        # In every measure, any relevant state.
        state = w.choose(f"state {i}", "none", "p is old", "p is new", "q is new", "p is old, q is new")
        if "p is old" in state:
            s.give(i, p, "b")
        if "p is new" in state:
            s.give(i, p, "a")
        if "q is new" in state:
            s.give(i, q, "a")
        if w.choose(f"another name {i}", False, True):
            s.give(i, r, "c")
    how = w.choose("how", "setter", "measure", "constructor")
    if how == "setter":
        s.rename(p, "a")
    elif how == "measure":
        s.give(w.choose("in", *range(n + 1)), p, "a")
    else:
        s.gp(w.choose("in", *range(n + 1)), "a")
    s.check("afterwards")
    if w.choose("again", False, True):
        s.rename(p, "b")
        s.check("after renaming")
        s.rename(q, "a")
        s.check("after reuse")


class Ghost:
    """An arbitrary consistent naming of arbitrarily many processes; cases are distinguished when it is consulted."""

    def __init__(self, w, label, pool):
        self.w, self.label, self.pool = w, label, pool
        self.holders, self.names = {}, {}  # What is known: from names to numbers of processes, and the other way.
        self.fresh = 0

    def holder(self, name):
        if name not in self.holders:
            free = [k for k in range(len(self.pool)) if k not in self.names]
            k = self.w.choose(f"{self.label}: holder of {name}", None, *free)
            self.holders[name] = k
            if k is not None:
                self.names[k] = name
        return self.holders[name]

    def name(self, k):
        if k not in self.names:
            free = [n for n in ("a", "b") if n not in self.holders]
            n = self.w.choose(f"{self.label}: name of {k}", None, *free, "fresh")
            if n == "fresh":
                self.fresh += 1
                n = f"fresh {self.fresh}"
            self.names[k] = n
            if n is not None:
                self.holders[n] = k
        return self.names[k]


def _no(self, *_):
    from pyvc.core import Unsupported

    raise Unsupported("unknown use of a dictionary of names")


class Map(dict):
    """A dictionary with arbitrary entries, those of a `Ghost`."""

    def __init__(self, old, known):
        dict.__init__(self)
        self.old, self.known = old, known  # `known` checks keys.
        self.gone = set()

    def find(self, key):
        if not self.known(key):
            _no(self)
        if key in self.gone:
            return None
        return dict.get(self, key) if dict.__contains__(self, key) else self.old(key)

    def __contains__(self, key):
        return self.find(key) is not None

    def __getitem__(self, key):
        v = self.find(key)
        if v is None:
            raise KeyError(key)
        return v

    def get(self, key, default=None):
        v = self.find(key)
        return default if v is None else v

    def __setitem__(self, key, value):
        if not self.known(key) or value is None:
            _no(self)
        self.gone.discard(key)
        dict.__setitem__(self, key, value)

    def setdefault(self, key, value):
        if key not in self:
            self[key] = value
        return self[key]

    def __delitem__(self, key):
        self[key]
        dict.pop(self, key, None)
        self.gone.add(key)

    def pop(self, key, *default):
        if default and key not in self:
            return default[0]
        v = self[key]
        del self[key]
        return v

    def changed(self):
        return set(dict.keys(self)) | self.gone

    __len__ = __bool__ = __iter__ = __eq__ = __reversed__ = items = keys = values = clear = update = popitem = copy = _no
    __or__ = __ior__ = _no
    __hash__ = None


@contract("one operation in an arbitrary state", *FUNCTIONS)
def arbitrary(w):
    """The dictionaries of the measures are arbitrary except that they are inverse to each other.

    Every operation does what it should and keeps them inverse, so this holds after histories of any length.
    """
    from pyvc.core import Unsupported
    from stheno import GP, Measure

    if not w.sym:
        return
    AtomKernel, _ = w.classes()
    m = Measure()
    ps = [GP(AtomKernel(w, "p", "p"), measure=m) for _ in range(4)]
    number = {id(p): k for k, p in enumerate(ps)}
    measures = [m] + [w.posterior(m, "P.") for _ in range(w.choose("posteriors", 0, 1))]
    ghosts = []
    for i, measure in enumerate(measures):
        # Find out how names are stored.
        before = {a: dict(v) for a, v in vars(measure).items() if isinstance(v, dict)}
        measure.name(ps[0], "probe")
        grown = {a: dict(v) for a, v in vars(measure).items() if isinstance(v, dict) and dict(v) != before.get(a)}
        forward = [a for a, v in grown.items() if list(v) == ["probe"] and v["probe"] is ps[0]]
        backward = [a for a, v in grown.items() if list(v) in ([id(ps[0])], [ps[0]]) and list(v.values()) == ["probe"]]
        if len(forward) != 1 or len(backward) != 1 or len(grown) != 2:
            raise Unsupported("unknown representation of names")
        by_id = isinstance(next(iter(grown[backward[0]])), int)
        g = Ghost(w, f"measure {i}", ps)
        of = number if by_id else {p: k for k, p in enumerate(ps)}
        process = lambda k: None if k is None else ps[k]
        names = Map((lambda g: lambda n: process(g.holder(n)))(g), lambda n: isinstance(n, str))
        inverse = Map((lambda g, of: lambda k: g.name(of[k]))(g, of), (lambda of: lambda k: k in of)(of))
        setattr(measure, forward[0], names)
        setattr(measure, backward[0], inverse)
        ghosts.append((g, names, inverse, of))

    how = w.choose("how", "setter", "measure", "constructor", "look up name", "look up process", "property")
    if how == "look up name":
        want = ghosts[0][0].holder("a")
        if want is None:
            w.raises("unknown name", KeyError, lambda: m["a"])
        else:
            w.true("process of a name", m["a"] is ps[want])
    elif how in ("look up process", "property"):
        want = ghosts[0][0].name(0)
        get = (lambda: ps[0].name) if how == "property" else (lambda: m[ps[0]])
        if want is None:
            w.raises("unnamed process", KeyError, get)
        else:
            w.true("name of a process", get() == want)
    if "look" in how or how == "property":
        for i, (g, names, inverse, of) in enumerate(ghosts):
            w.true("looking up changes nothing", not names.changed() and not inverse.changed())
        return

    if how == "constructor":
        # The new process has no name in any measure.
        ghosts = ghosts[:1]
        g, names, inverse, of = ghosts[0]
        held = g.holder("a")
        n = len(m.ps)
        known = inverse.known
        inverse.known = lambda k: known(k) or any(k == id(q) or k is q for q in m.ps[n:])
        first = inverse.old
        inverse.old = lambda k: first(k) if known(k) else None
        make = lambda: GP(AtomKernel(w, "p", "p"), measure=m, name="a")
        if held is not None:
            w.raises("taken name rejected", RuntimeError, make)
            affected = []
        else:
            q = make()
            w.true("named", m["a"] is q and m[q] == "a" and q.name == "a")
            w.true("only this entry", names.changed() == {"a"} and len(inverse.changed()) == 1)
            return
    else:
        taken = [g.holder("a") not in (None, 0) for g, *_ in ghosts]
        if how == "setter":
            affected, run = list(range(len(ghosts))), lambda: setattr(ps[0], "name", "a")
        else:
            i = w.choose("in", *range(len(ghosts)))
            affected, run = [i], lambda: measures[i].name(ps[0], "a")
        if any(taken[i] for i in affected):
            w.raises("taken name rejected", RuntimeError, run)
            affected = []
        else:
            run()
    for i, (g, names, inverse, of) in enumerate(ghosts):
        key = {k: a for a, k in of.items()}
        # What should be there now.
        old = g.name(0) if i in affected else None
        for n in sorted(names.changed() | set(g.holders) | {"a"}):
            want = 0 if n == "a" else None if n == old else g.holder(n)
            want = want if i in affected else g.holder(n)
            w.true("processes of names", names.find(n) is (None if want is None else ps[want]))
        for k in sorted({of[a] for a in inverse.changed() if a in of} | set(g.names) | {0}):
            want = "a" if i in affected and k == 0 else g.name(k)
            w.true("names of processes", inverse.find(key[k]) == want)
        w.true("no other entries", all(a in of for a in inverse.changed()))


@contract("names of results", *FUNCTIONS)
def results(w):
    """Only naming operations name processes."""
    s = Names(w)
    m = s.prior()
    p, q = s.gp(m, "a"), s.gp(m, w.choose("second", None, "b"))
    s.posterior(m)
    if w.choose("in posterior", False, True):
        s.rename(p, "c")
    op = w.choose("operation", "sum", "copy", "product", "shift", "posterior")
    if op == "posterior":
        s.posterior(m)
    else:
        P, Q = s.ps[p], s.ps[q]
        r = {"sum": lambda: P + Q, "copy": lambda: s.measures[1](P), "product": lambda: P * Q, "shift": lambda: P.shift(1)}
        s.ps.append(r[op]())
        s.member.append([1] if op == "copy" else [0, 1])
    s.check("afterwards")
    w.raises("unknown name", KeyError, lambda: s.measures[0]["unknown"])
    s.rename(len(s.ps) - 1, "d" if op == "posterior" else "b")
    s.check("after naming")


@contract("names are strings", *FUNCTIONS)
def strings(w):
    s = Names(w)
    m = s.prior()
    p = s.gp(m, w.choose("name", None, "a"))
    bad = w.choose("bad name", 1, None, 2.0, ("a",))
    if w.choose("how", "setter", "measure") == "setter":
        w.raises("rejected", Exception, lambda: setattr(s.ps[p], "name", bad))
    else:
        w.raises("rejected", Exception, lambda: s.measures[m].name(s.ps[p], bad))
    s.check("afterwards")


@contract("random histories", *FUNCTIONS, bounded=BOUND, numeric_only="random histories", runs=160)
def random(w):
    s = Names(w)
    s.gp(s.prior())
    for _ in range(w.rng.randint(1, 40)):
        op = str(w.rng.choice(["rename", "rename", "give", "give", "gp", "posterior", "prior"]))
        m, k, name = w.rng.randint(len(s.measures)), w.rng.randint(len(s.ps)), str(w.rng.choice(NAMES))
        if op == "rename":
            s.rename(k, name)
        elif op == "give":
            s.give(w.rng.choice(s.member[k]), k, name)
        elif op == "gp" and len(s.ps) < 7:
            s.gp(m, w.rng.choice([None, name]))
        elif op == "posterior" and len(s.measures) < 6 and any(m in ms for ms in s.member):
            s.posterior(m)
        elif op == "prior" and len(s.measures) < 4:
            s.gp(s.prior())
    s.check("finally")
