"""C12: a process evaluated at inputs is its finite-dimensional law plus noise."""
from pyvc.world import contract


def make_noise(w, n, name="noise", kinds=("none", "scalar", "python", "vector", "matrix", "diagonal", "dense")):
    """Any kind of noise and the matrix it stands for."""
    from matrix import Dense, Diagonal

    kind = w.choose(name, *kinds)
    if kind == "none":
        return None, w.zeros(n, n)
    if kind == "scalar":
        s = w.num("s2" + name, positive=True)
        return s, w.eye(n) * s
    if kind == "python":
        return 0.5, w.eye(n) * 0.5
    if kind == "vector":
        v = w.vec("v" + name, n, positive=True)
        return v, w.dg(v)
    if kind == "matrix":
        m = w.pd("N" + name, n)
        return m, m
    if kind == "diagonal":
        v = w.vec("v" + name, n, positive=True)
        return Diagonal(v), w.dg(v)
    m = w.pd("N" + name, n)
    return Dense(m), m


def view(w, d, which, mean, var, label="", batch=False):
    """One view of the distribution `d`."""
    # The elements of the diagonal of a variance are nonnegative.
    w.nonneg(w.diag(var))
    column, rank = (w.as_column, 2) if batch else (w.col, 1)
    label = f"{label}{which}"
    if which == "mean":
        w.eq(label, d.mean, mean)
    elif which == "var":
        w.eq(label, d.var, var)
    elif which == "var_diag":
        w.eq(label, column(d.var_diag), w.diag(var))
        w.true(label + " is a vector", len(d.var_diag.shape) == rank)
    elif which == "mean_var":
        m, v = d.mean_var
        w.eq(label + ": mean", m, mean)
        w.eq(label + ": var", v, var)
    elif which == "marginals":
        m, v = d.marginals()
        w.eq(label + ": means", column(m), mean)
        w.eq(label + ": variances", column(v), w.diag(var))
        w.true(label + " are vectors", len(m.shape) == rank and len(v.shape) == rank)
    elif which == "dim":
        w.true(label, d.dim == var.shape[-1])


VIEWS = ("mean", "var", "var_diag", "mean_var", "marginals", "dim")
FUNCTIONS = ("stheno.model.fdd:FDD.__init__", "stheno.model.fdd:_noise_as_matrix", "stheno.model.gp:GP.__call__")


def source(w):
    """A process: an atom, a zero-mean atom, derived, multi-output, with structured kernels, or a posterior one.

    Returns:
        tuple: Process, and functions from inputs to its mean and its variance.
    """
    from mlkernels import Linear, OneKernel, ZeroKernel
    from stheno import GP, cross

    kind = w.choose("process", "atom", "zero mean", "derived", "cross", "nested", "zero", "one", "linear", "mixed", "posterior")
    if kind in ("linear", "mixed"):
        # Variances of low rank.
        m, p = w.law("p")
        q = GP(w.num("c"), 3 * Linear(), measure=m)
        mean = lambda x: w.ones(w.M("p", x).shape[-2], 1) * w.num("c")
        var = lambda x: w.col(x) @ w.T(w.col(x)) * 3
        if kind == "linear":
            return m, q, mean, var, 1
        return m, p + q, lambda x: w.M("p", x) + mean(x), lambda x: w.K("p", "p", x, x) + var(x), 1
    if kind in ("zero", "one"):
        m, p = w.law("p")
        q = GP(w.num("c"), ZeroKernel() if kind == "zero" else 2 * OneKernel(), measure=m)
        n_ = lambda x: w.M("p", x).shape[-2]
        var = (lambda x: w.zeros(n_(x), n_(x))) if kind == "zero" else (lambda x: w.ones(n_(x), n_(x)) * 2)
        return m, q, lambda x: w.ones(n_(x), 1) * w.num("c"), var, 1
    if kind == "zero mean":
        m, p = w.law("p", zero_mean=("p",))
        return m, p, lambda x: w.M("p", x), lambda x: w.K("p", "p", x, x), 1
    m, p, q = w.law("p", "q")
    if kind == "atom":
        return m, p, lambda x: w.M("p", x), lambda x: w.K("p", "p", x, x), 1
    K = lambda a, b: (lambda x: w.K(a, b, x, x))
    if kind == "derived":
        return (
            m,
            2 * p + q,
            lambda x: w.M("p", x) * 2 + w.M("q", x),
            lambda x: K("p", "p")(x) * 4 + K("p", "q")(x) * 2 + K("q", "p")(x) * 2 + K("q", "q")(x),
            1,
        )
    if kind == "posterior":
        post = w.posterior(m, "P.")
        return post, post(p), lambda x: w.M("P.p", x), lambda x: w.K("P.p", "P.p", x, x), 1
    names = ("p", "q") if kind == "cross" else ("q", "p", "q")
    c = cross(p, q) if kind == "cross" else cross(q, cross(p, q))
    return (
        m,
        c,
        lambda x: w.stack(*[w.M(a, x) for a in names]),
        lambda x: w.blocks([[w.K(a, b, x, x) for b in names] for a in names]),
        len(names),
    )


@contract("FDD: every view", *FUNCTIONS, "stheno.random:Normal.mean_var", "stheno.random:Normal.marginals", split=4)
def views(w):
    m, p, mean, var, d = source(w)
    n = w.dim("n", ("many", "one", "zero"))
    x = w.input("x", n, w.choose("d", None, 2))
    noise, N = make_noise(w, n * d)
    for v in VIEWS:
        view(w, p(x, noise), v, mean(x), var(x) + N)


@contract("FDD at a batch of inputs", *FUNCTIONS, "stheno.random:Normal.mean_var", "stheno.random:Normal.marginals", split=4)
def views_batch(w):
    m, p, mean, var, d = source(w)
    n, b = w.dim("n", ("many", "one")), w.dim("b", ("many", "one"))
    x = w.input("x", n, w.choose("d", 1, 2), (b,))
    kind = w.choose("noise", "none", "scalar", "python", "matrix", "matrices", "dense")
    if kind == "matrices":
        noise = N = w.pd("N", n * d, (b,))
    else:
        noise, N = make_noise(w, n * d, kinds=(kind,))
    for v in VIEWS:
        view(w, p(x, noise), v, mean(x), var(x) + N, batch=True)


@contract("FDD: every view after every other", *FUNCTIONS, split=4)
def views_in_order(w):
    m, p, mean, var, d = source(w)
    x = w.input("x", w.dim("n"))
    noise, N = make_noise(w, w.M("p", x).shape[0] * d, kinds=("none", "scalar", "vector", "matrix"))
    f = p(x, noise)
    first, second = w.choose("first view", *VIEWS), w.choose("second view", *VIEWS)
    view(w, f, first, mean(x), var(x) + N, f"first: ")
    view(w, f, second, mean(x), var(x) + N, f"after {first}: ")


@contract("FDD without noise argument", *FUNCTIONS)
def no_noise(w):
    m, p, mean, var, d = source(w)
    n = w.dim("n", ("many", "one"))
    x = w.input("x", n, w.choose("d", None, 2))
    from stheno.model.fdd import FDD

    f = p(x) if w.choose("how", "call", "FDD") == "call" else FDD(p, x)
    for v in VIEWS:
        view(w, f, v, mean(x), var(x), f"{v}: ")


@contract("take: a mask selects inputs and noise", "stheno.model.fdd:take", "stheno.model.fdd:_take_x", "stheno.mo.kernel:_take_x")
def take(w):
    from lab import B

    m, p, mean, var, d = source(w)
    n = w.dim("n", ("many", "one", "zero"))
    x1 = w.input("x", n, w.choose("d", None, 2) if d == 1 else None)
    noise, N = make_noise(w, n * d, kinds=("none", "scalar", "vector", "matrix", "diagonal"))
    f = p(x1, noise)
    mask = w.mask("mask", *[n] * d)
    g = B.take(f, mask)
    S = w.selection(mask)
    w.eq("mean", g.mean, S @ mean(x1))
    w.eq("var", g.var, S @ (var(x1) + N) @ w.T(S))
    w.eq("var_diag", w.col(g.var_diag), w.diag(S @ (var(x1) + N) @ w.T(S)))
    w.true("original unchanged", f.dim == n * d)
    w.eq("original var", f.var, var(x1) + N)


@contract("take: only masks", "stheno.model.fdd:take")
def take_rejects(w):
    import numpy as np
    from lab import B

    m, p = w.law("p")
    n = w.dim("n", (3,))
    f = p(w.input("x", n))
    kind = w.choose("index", "ints", "array", "floats", "int", "zeros and ones", "empty")
    index = {
        "ints": np.array([0, 1]),
        "array": np.array([2, 1, 0]),
        "floats": np.array([1.0, 0.0, 1.0]),
        "int": 1,
        "zeros and ones": np.array([0, 1, 1]),
        "empty": np.array([], dtype=int),
    }[kind]
    w.raises("rejected", (AssertionError, ValueError, TypeError, NotImplementedError, RuntimeError), lambda: B.take(f, index))
