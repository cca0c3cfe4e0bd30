"""C13: every view of a normal distribution agrees, in any order of access.

All histories of accesses are covered: the states that the object can reach (what it stores, together with which
constructors have been evaluated) are enumerated until no new one is found, and in every state every access is made.
"""
from pyvc.world import contract

FUNCTIONS = (
    "stheno.random:Normal.__init__",
    "stheno.random:Normal._resolve_mean",
    "stheno.random:Normal._resolve_var",
    "stheno.random:Normal._resolve_var_diag",
    "stheno.random:Normal.mean_var",
    "stheno.random:Normal.marginals",
    "stheno.random:Normal.marginal_credible_bounds",
)


def make_mean(w, n, kind, batch=()):
    """A mean of a kind and the column that it stands for."""
    from lab import B
    from matrix import Dense, Zero

    if kind == "literal zero":
        return 0, w.zeros(n, 1)
    if kind == "zero matrix":
        return Zero(B.default_dtype, n, 1), w.zeros(n, 1)
    m = w.mat("m", n, 1, batch)
    return (Dense(m) if kind == "structured" else m), m


def make_var(w, n, kind, batch=()):
    from lab import B
    from matrix import Dense, Diagonal, Zero

    if kind == "zero":
        return Zero(B.default_dtype, n, n), w.zeros(n, n)
    if kind == "diagonal":
        v = w.vec("v", n, positive=True)
        return Diagonal(v), w.dg(v)
    m = w.pd("V", n, batch)
    return (Dense(m) if kind == "structured" else m), m


def state_of(x, seen=()):
    """A hashable description of everything that an object stores."""
    import types

    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if id(x) in seen:
        return "cycle"
    if isinstance(x, (types.FunctionType, types.MethodType)):
        return "function", x.__qualname__
    if isinstance(x, type):
        return "type", x.__qualname__
    if hasattr(x, "tobytes"):
        return "array", x.shape, x.tobytes()
    if hasattr(x, "p") and hasattr(x.p, "key") and hasattr(x, "core"):
        return "symbolic", x.core, x.p.key, len(x.batch)
    seen = seen + (id(x),)
    if isinstance(x, (tuple, list)):
        return type(x).__name__, tuple(state_of(y, seen) for y in x)
    if isinstance(x, dict):
        return "dict", tuple(sorted(((str(k), state_of(v, seen)) for k, v in x.items()), key=str))
    names = dict(getattr(x, "__dict__", {}))
    for c in type(x).__mro__:
        slots = getattr(c, "__slots__", ())
        for s in (slots,) if isinstance(slots, str) else slots:
            if hasattr(x, s):
                names[s] = getattr(x, s)
    if not names and not isinstance(x, (tuple, list)):
        return type(x).__qualname__, str(x)
    return type(x).__qualname__, tuple(sorted(((k, state_of(v, seen)) for k, v in names.items()), key=str))


ACCESSES = ("mean", "var", "var_diag", "mean_var", "marginals", "bounds", "dim", "mean_is_zero", "m2")


def access(w, d, which, mean, var, is_zero, label):
    """Make an access and check what it gives."""
    diag = w.diag(var)
    n = var.shape[-1]

    def column(name, x):
        w.eq(f"{label}: {name}", x, mean)

    def vector(name, x, want):
        w.true(f"{label}: {name} is a vector", len(x.shape) == len(want.shape) - 1)
        w.eq(f"{label}: {name}", w.as_column(x), want)

    if which == "mean":
        column("mean", d.mean)
    elif which == "var":
        w.eq(f"{label}: var", d.var, var)
    elif which == "var_diag":
        vector("var_diag", d.var_diag, diag)
    elif which == "mean_var":
        m, v = d.mean_var
        column("joint mean", m)
        w.eq(f"{label}: joint var", v, var)
    elif which == "marginals":
        m, v = d.marginals()
        vector("marginal means", m, mean)
        vector("marginal variances", v, diag)
    elif which == "bounds":
        m, lower, upper = d.marginal_credible_bounds()
        e = w.sqrt(diag) * 1.96
        vector("means of bounds", m, mean)
        vector("lower bounds", lower, mean - e)
        vector("upper bounds", upper, mean + e)
    elif which == "dim":
        w.true(f"{label}: dim", d.dim == n)
    elif which == "mean_is_zero":
        w.true(f"{label}: mean_is_zero", bool(d.mean_is_zero) == is_zero)
    elif which == "m2":
        w.eq(f"{label}: m2", d.m2, var + mean @ w.T(mean))


QUANTITIES = {
    "mean": {"mean"},
    "var": {"var"},
    "var_diag": {"var_diag"},
    "mean_var": {"mean", "var"},
    "mean_var_diag": {"mean", "var_diag"},
}


def explore(w, make, mean, var, is_zero, accesses=ACCESSES, limit=400):
    """Make every access in every state that can be reached.

    Args:
        make (function): Function that takes in a list that records evaluations of constructors.
    """
    w.nonneg(w.diag(var))

    def replay(history):
        calls = []
        d = make(calls)
        for h in history:
            access(w.quiet(), d, h, mean, var, is_zero, "before")
        return d, calls

    def key(d, calls):
        return state_of(d), tuple(sorted(set(calls)))

    d, calls = replay(())
    w.true("constructors are not evaluated before an access", not calls)
    seen, todo = {key(d, calls)}, [()]
    while todo:
        history = todo.pop(0)
        for a in accesses:
            d, calls = replay(history)
            before = list(calls)
            access(w, d, a, mean, var, is_zero, a)
            known = set().union(*[QUANTITIES[c] for c in before]) if before else set()
            for c in calls[len(before) :]:
                w.true(
                    "constructors are not evaluated again",
                    c not in before and not QUANTITIES[c] <= known,
                    f"{c} after {before} when accessing {a} after {history}",
                )
                before.append(c)
                known |= QUANTITIES[c]
            k = key(d, calls)
            if k not in seen:
                seen.add(k)
                todo.append(history + (a,))
                if len(seen) > limit:
                    raise AssertionError("too many states")
    w.cover("all states explored")


@contract("given by values", *FUNCTIONS)
def values(w):
    from stheno import Normal

    n = w.dim("n", ("many", "one"))
    mean_kind = w.choose("mean", "implied", "literal zero", "zero matrix", "array", "structured")
    var, V = make_var(w, n, w.choose("variance", "array", "structured", "diagonal", "zero"))
    if mean_kind == "implied":
        explore(w, lambda calls: Normal(var), w.zeros(n, 1), V, True)
        return
    mean, M = make_mean(w, n, mean_kind)
    explore(w, lambda calls: Normal(mean, var), M, V, "zero" in mean_kind)


@contract("given by values: batches", *FUNCTIONS)
def batches(w):
    from stheno import Normal

    n, b = w.dim("n"), (w.dim("b"),)
    mean, M = make_mean(w, n, w.choose("mean", "array", "structured"), b)
    var, V = make_var(w, n, w.choose("variance", "array", "structured"), b)
    explore(w, lambda calls: Normal(mean, var), M, V, False, [a for a in ACCESSES if a != "m2"])


@contract("given by constructors", *FUNCTIONS, split=5)
def constructors(w):
    from stheno import Normal

    n = w.dim("n", ("many", *w.more("one")))
    mean_kind = w.choose("mean", "implied", "literal zero", "zero matrix", "array", "structured")
    var, V = make_var(w, n, w.choose("variance", "array", "structured", "diagonal", *w.more("zero")))
    mean, M = make_mean(w, n, "literal zero" if mean_kind == "implied" else mean_kind)
    extra = w.choose(
        "extra constructors",
        (),
        ("var_diag",),
        ("mean_var",),
        ("mean_var_diag",),
        ("var_diag", "mean_var"),
        ("var_diag", "mean_var_diag"),
        ("mean_var", "mean_var_diag"),
        ("var_diag", "mean_var", "mean_var_diag"),
    )
    diag = w.as_vector(w.diag(V))

    def make(calls):
        values = dict(mean=mean, var=var, var_diag=diag, mean_var=(mean, var), mean_var_diag=(mean, diag))

        def constructor(name):
            def construct():
                calls.append(name)
                return values[name]

            return construct

        kw_args = {name: constructor(name) for name in extra}
        if mean_kind == "implied":
            return Normal(constructor("var"), **kw_args)
        return Normal(constructor("mean"), constructor("var"), **kw_args)

    explore(w, make, M, V, "zero" in mean_kind or mean_kind == "implied")


@contract("the views after a change of data type", "stheno.random:cast", "stheno.random:dtype")
def cast(w):
    """Casting a distribution does not change it."""
    from lab import B
    from stheno import Normal

    n = w.dim("n")
    mean_kind = w.choose("mean", "literal zero", "array")
    mean, M = make_mean(w, n, mean_kind)
    var, V = make_var(w, n, w.choose("variance", "array", "diagonal"))
    w.nonneg(w.diag(V))
    d = Normal(mean, var)
    first = w.choose("accessed before", None, "mean", "marginals")
    if first:
        access(w, d, first, M, V, "zero" in mean_kind, first)
    e = B.cast(B.dtype(d), d)
    w.true("type", isinstance(e, Normal))
    for a in ("mean", "var", "var_diag", "marginals"):
        access(w, e, a, M, V, "zero" in mean_kind, "cast " + a)
