"""C06: leaving a measure's with-block restores the previous default measure."""
from pyvc.world import contract

FUNCTIONS = (
    "stheno.model.measure:Measure.__enter__",
    "stheno.model.measure:Measure.__exit__",
    "stheno.model.gp:GP.__init__",
)


class Stop(BaseException):
    """Leaves blocks, but is no `Exception`."""


ERRORS = {"error": RuntimeError, "stop": Stop, "generator": GeneratorExit}


class Scene:
    def __init__(self, w, n=3, derived=None):
        from stheno import Measure

        class Derived(Measure):
            """Measures of classes that users derive are measures, too."""

        if derived is None:
            derived = w.choose("classes", "of the package", "derived") == "derived"
        self.w = w
        self.saved = Measure.default
        self.measures = [Derived() if derived and i % 2 == 0 else Measure() for i in range(n)]
        self.stack = []
        self.count = 0

    def new(self, label, how="kernel", name=None):
        """A new process without explicit measure attaches to the innermost measure, or a fresh one."""
        from stheno import GP

        w = self.w
        AtomKernel, AtomMean = w.classes()
        before = [len(m.ps) for m in self.measures]
        kwargs = {"name": name} if name else {}
        if how == "kernel":
            p = GP(AtomKernel(w, "p", "p"), **kwargs)
        elif how == "mean and kernel":
            p = GP(AtomMean(w, "p"), AtomKernel(w, "p", "p"), **kwargs)
        else:
            p = GP(1, AtomKernel(w, "p", "p"), **kwargs)
        if self.stack:
            want = self.measures[self.stack[-1]]
            w.true(f"{label}: attaches to the innermost measure", p.measure is want)
            w.true(f"{label}: is in the innermost measure", any(q is p for q in want.ps))
        else:
            w.true(f"{label}: fresh measure", all(p.measure is not m for m in self.measures))
            w.true(f"{label}: measure of its own", len(p.measure.ps) == 1 and p.measure.ps[0] is p)
        grown = [len(m.ps) - k for m, k in zip(self.measures, before)]
        want = [int(bool(self.stack) and i == self.stack[-1]) for i in range(len(grown))]
        w.true(f"{label}: other measures unchanged", grown == want)
        if name:
            w.true(f"{label}: named", p.name == name and p.measure[name] is p)

    def explicit(self, label):
        """An explicit measure wins."""
        from stheno import GP

        AtomKernel, AtomMean = self.w.classes()
        w = self.w
        kinds = ((AtomMean(w, "p"), AtomKernel(w, "p", "p")), (AtomKernel(w, "p", "p"),), (1, AtomKernel(w, "p", "p")), (2,))
        for m in self.measures:
            for args in kinds:
                for named in (False, True):
                    n = [len(a.ps) for a in self.measures]
                    self.count += 1
                    name = f"explicit {self.count}"
                    p = GP(*args, measure=m, **({"name": name} if named else {}))
                    w.true(f"{label}: explicit measure", p.measure is m)
                    w.true(
                        f"{label}: only the explicit measure",
                        [len(a.ps) - k for a, k in zip(self.measures, n)] == [int(a is m) for a in self.measures],
                    )
                    if named:
                        w.true(f"{label}: named in the explicit measure", p.name == name and m[name] is p)

    def check(self, label):
        from stheno import Measure

        want = self.measures[self.stack[-1]] if self.stack else None
        self.w.true(f"{label}: default", Measure.default is want)
        self.new(label)

    def run(self, program, label=""):
        """Run a list of blocks: measure, how it ends, inner blocks."""
        w = self.w
        for k, (m, end, inner) in enumerate(program):
            here = f"{label}{k}"
            error = ERRORS[end]() if end in ERRORS else None
            caught = None
            try:
                with self.measures[m] as entered:
                    self.stack.append(m)
                    w.true("the block gives its measure", entered is self.measures[m])
                    self.check(f"start of {here}")
                    self.run(inner, here + ".")
                    self.check(f"end of {here}")
                    if error is not None:
                        raise error
            except BaseException as e:
                if e is not error:
                    raise
                caught = e
            self.stack.pop()
            w.true("errors leave the block", caught is error)
            self.check(f"after {here}")

    def __enter__(self):
        from stheno import Measure

        Measure.default = None
        return self

    def __exit__(self, *_):
        from stheno import Measure

        Measure.default = self.saved


BOUND = "nesting up to depth three (random: depth eight) of three measures"


@contract("nested blocks", *FUNCTIONS, bounded=BOUND)
def nested(w):
    with Scene(w) as s:
        s.check("before")
        depth = w.choose("depth", 1, 2, 3)
        program = []
        # Build from the inside.
        for k in range(depth):
            m = w.choose(f"measure {k}", 0, 1, 2)
            end = w.choose(f"end {k}", "end", "error", *w.more("stop"))
            program = [(m, end, program)]
        s.run(program)
        s.check("finally")
        s.explicit("finally")


@contract("blocks in a block", *FUNCTIONS, bounded=BOUND)
def sequence(w):
    with Scene(w, 2) as s:
        outer = w.choose("outer", 0, 1)
        inner = [(w.choose(f"measure {k}", 0, 1), w.choose(f"end {k}", "end", "stop", "generator"), []) for k in range(2)]
        if w.choose("deeper", False, True):
            m, end, _ = inner[0]
            inner[0] = (m, end, [(w.choose("innermost", 0, 1), "end", [])])
        s.run([(outer, w.choose("end", "end", "error"), inner), (w.choose("next", 0, 1), "end", [])])
        s.check("finally")


@contract("an error leaves several blocks", *FUNCTIONS, bounded=BOUND)
def unwinding(w):
    from stheno import Measure

    with Scene(w) as s:
        ms = [s.measures[w.choose(f"measure {k}", 0, 1, 2)] for k in range(3)]
        error = ERRORS[w.choose("error", *ERRORS)]()
        caught = None
        with ms[0]:
            try:
                with ms[1]:
                    with ms[2]:
                        w.true("innermost default", Measure.default is ms[2])
                        raise error
            except BaseException as e:
                if e is not error:
                    raise
                caught = e
            w.true("the error arrives", caught is error)
            w.true("default of the outer block", Measure.default is ms[0])
            with ms[2]:
                w.true("default of the next block", Measure.default is ms[2])
            w.true("default of the outer block again", Measure.default is ms[0])
        s.check("finally")

        def early():
            with ms[0], ms[1]:
                for m in ms:
                    with m:
                        if m is ms[2]:
                            return True
            return False

        w.true("return in a block", early())
        s.check("after a return")


@contract("processes in a block", *FUNCTIONS, bounded=BOUND)
def processes(w):
    """How a process is made does not matter."""
    from stheno import GP

    with Scene(w, 2) as s:
        how = w.choose("how", "kernel", "mean and kernel", "constant mean")
        name = w.choose("name", None, "a")
        where = w.choose("where", "outside", "block", "nested")
        if where == "outside":
            s.new("outside", how, name)
            s.explicit("outside")
            return
        with s.measures[0]:
            s.stack.append(0)
            s.new("in the block", how, name)
            s.explicit("in the block")
            if where == "nested":
                with s.measures[1]:
                    s.stack.append(1)
                    s.new("in the inner block", how, name)
                    s.explicit("in the inner block")
                    # Results belong to the measures of their operands, whatever the default is.
                    p = s.measures[0].ps[0]
                    n = len(s.measures[1].ps)
                    for q in (p + 1, 2 * p, p + p, p.shift(1), p | (p(w.input("x", 2)), w.column("y", 2))):
                        w.true("results ignore the default", q.measure is not s.measures[1])
                    w.true("the default gets no results", len(s.measures[1].ps) == n)
                s.stack.pop()
                s.new("after the inner block", how, "b" if name else None)
        s.stack.pop()
        s.new("after the block", how, name)


@contract("an empty measure is a default, too", *FUNCTIONS)
def empty(w):
    """A measure without processes and measures that compare in any way count as default."""
    from stheno import Measure

    with Scene(w, 2) as s:
        post = s.measures[0] if w.choose("kind", "empty", "posterior") == "empty" else w.posterior(s.measures[0], "P.")
        s.measures[0] = post
        with post:
            s.stack.append(0)
            s.check("inside")
            s.explicit("inside")
        s.stack.pop()
        s.check("after")


@contract("a block in any state", *FUNCTIONS, "stheno.model.gp:GP.__init__")
def any_state(w):
    """The rule for blocks: whatever the default is and whatever blocks are around, a block whose body restores the
    state restores the state, too.  By induction, so do programs of blocks of any length and nesting.

    What measures remember is replaced by stacks of which only the part put there by this contract is known.
    """
    from pyvc.core import Unsupported
    from stheno import Measure

    if not w.sym:
        return

    class Stack(list):
        """An arbitrary stack: what is below is not known."""

        def pop(self, *at):
            if at not in ((), (-1,)) or not list.__len__(self):
                raise Unsupported("unknown use of a stack")
            return list.pop(self)

        def __getitem__(self, i):
            if isinstance(i, int) and i < 0 and -i <= list.__len__(self):
                return list.__getitem__(self, i)
            raise Unsupported("unknown use of a stack")

        def _no(self, *_):
            raise Unsupported("unknown use of a stack")

        __len__ = __bool__ = __iter__ = __contains__ = __reversed__ = __eq__ = insert = extend = index = remove = clear = _no
        __hash__ = None

        def state(self):
            return [id(x) for x in list.__iter__(self)]

    def attributes():
        places = [(Measure, a) for a in vars(Measure) if not a.startswith("__")]
        return places + [(m, a) for m in s.measures for a in vars(m)]

    def freeze(v):
        if isinstance(v, Stack):
            return "stack", v.state()
        if isinstance(v, (list, tuple)):
            return "list", [id(x) for x in v]
        if isinstance(v, dict):
            return "dict", [(id(k), id(x)) for k, x in v.items()]
        return "object", id(v)

    def state():
        return {(id(o), a): freeze(vars(o)[a]) for o, a in attributes()}

    with Scene(w) as s:
        # Find out what a block remembers.
        for m in s.measures:
            before = state()
            places = attributes()
            inside = {}
            with m:
                inside = state()
            for o, a in places:
                k = id(o), a
                if a == "default" or before[k] == inside.get(k):
                    continue
                if before[k][0] != "list" or len(inside[k][1]) != len(before[k][1]) + 1:
                    raise Unsupported("unknown representation of the blocks around")
                setattr(o, a, Stack())
        default = w.choose("default", None, 0, 1, "another")
        if default == "another":
            s.measures.append(Measure())
            default = 3
        Measure.default = None if default is None else s.measures[default]
        s.stack = [] if default is None else [default]
        was = Measure.default
        m = w.choose("measure", 0, 1)
        before = state()
        error = ERRORS[w.choose("ends with", *ERRORS)]() if w.choose("ends", "normally", "error") == "error" else None
        caught = None
        try:
            with s.measures[m] as entered:
                w.true("the block gives its measure", entered is s.measures[m])
                w.true("the default inside", Measure.default is s.measures[m])
                # The body: by induction, blocks in it restore the state, and nothing else in it changes the state.
                if error is not None:
                    raise error
        except BaseException as e:
            if e is not error:
                raise
            caught = e
        w.true("errors leave the block", caught is error)
        w.true("the default is restored", Measure.default is was)
        if state() != before:
            raise Unsupported("a block leaves something behind")
        w.true("the state is restored", True)
        s.new("afterwards", w.choose("how", "kernel", "mean and kernel", "constant mean"), w.choose("name", None, "a"))
        s.explicit("afterwards")


@contract("random programs", *FUNCTIONS, bounded=BOUND, numeric_only="random programs", runs=160)
def programs(w):
    def block(depth):
        m, end = int(w.rng.randint(3)), str(w.rng.choice(["end", *ERRORS]))
        return m, end, [block(depth - 1) for _ in range(w.rng.randint(3))] if depth else []

    with Scene(w) as s:
        s.run([block(w.rng.randint(1, 6)) for _ in range(2)])
        s.check("finally")
        # A deep one.
        program = []
        for _ in range(w.rng.randint(1, 9)):
            program = [(int(w.rng.randint(3)), str(w.rng.choice(["end", *ERRORS])), program)]
        s.run(program)
        s.check("finally")
