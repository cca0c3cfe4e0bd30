"""C14: densities, entropies and distances of normals equal their closed forms."""
from pyvc.world import contract

from .c13 import make_mean

LOGPDF = ("stheno.random:Normal.logpdf",)
MEANS = ("implied", "literal zero", "zero matrix", "array", "structured")


def make_var(w, n, kind, name="V"):
    """A positive-definite variance of a kind, and its value, inverse, and log-determinant."""
    from matrix import Dense, Diagonal, LowRank, Woodbury

    if kind == "diagonal":
        v = w.vec("v" + name, n, positive=True)
        V = w.dg(v)
        return Diagonal(v), V, w.inv(V), w.logdet(V)
    if kind == "low rank plus diagonal":
        r = w.dim("rank")
        v, U = w.vec("v" + name, n, positive=True), w.mat("U" + name, n, r)
        V = w.dg(v) + U @ w.T(U)
        inverse, logdet = w.lowrank_inv(w.dg(v), U, w.eye(r)), w.lowrank_logdet(w.dg(v), U, w.eye(r))
        return Woodbury(Diagonal(v), LowRank(U)), V, inverse, logdet
    V = w.pd(name, n)
    return (Dense(V) if kind == "structured" else V), V, w.inv(V), w.logdet(V)


def normal(w, n, mean_kind=None, var_kind=None, name=""):
    """A normal distribution, given by values or by constructors, and its mean, variance, its inverse and its
    log-determinant."""
    from stheno import Normal

    mean_kind = mean_kind or w.choose("mean" + name, *MEANS)
    kinds = ("array", "structured", "diagonal") + (() if n == 1 else ("low rank plus diagonal",))
    var_kind = var_kind or w.choose("variance" + name, *kinds)
    var, V, iV, ld = make_var(w, n, var_kind, "V" + name)
    w.nonneg(w.diag(V))
    lazy = w.choose("given by" + name, "values", "constructors") == "constructors"
    if mean_kind == "implied":
        return Normal((lambda: var) if lazy else var), w.zeros(n, 1), V, iV, ld
    if mean_kind in ("array", "structured"):
        from matrix import Dense

        M = w.mat("m" + name, n, 1)
        mean = Dense(M) if mean_kind == "structured" else M
    else:
        mean, M = make_mean(w, n, mean_kind)
    return (Normal(lambda: mean, lambda: var) if lazy else Normal(mean, var)), M, V, iV, ld


def dims(w):
    return w.dim("n", ("many", "one"))


@contract("log-density of one value", *LOGPDF)
def logpdf(w):
    n = dims(w)
    d, M, V, iV, ld = normal(w, n)
    kind = w.choose("value", "column", "vector", *(("scalar",) if n == 1 else ()))
    if kind == "column":
        x = X = w.column("x", n)
    elif kind == "vector":
        x = w.vec("x", n)
        X = w.col(x)
    else:
        x = w.num("x")
        X = w.ones(1, 1) * x
    r = X - M
    want = (ld + w.number(n) * w.log2pi() + w.scalar(w.T(r) @ iV @ r)) * -0.5
    got = d.logpdf(x)
    w.true("a scalar", len(got.shape) == 0)
    w.eq("log-density", got, want)
    if w.choose("again", False, True):
        w.eq("log-density again", d.logpdf(x), want)


@contract("log-densities of several values", *LOGPDF)
def logpdfs(w):
    n = dims(w)
    num = w.dim("number of values", ("many", 2, 3))
    d, M, V, iV, ld = normal(w, n)
    x = w.mat("x", n, num)
    r = x - M @ w.ones(1, num)
    q = w.diag(w.T(r) @ iV @ r)
    want = (w.ones(num, 1) * (ld + w.number(n) * w.log2pi()) + q) * -0.5
    got = d.logpdf(x)
    w.true("a vector", len(got.shape) == 1)
    w.eq("log-densities", w.as_column(got), want)


@contract("log-densities of batches", *LOGPDF)
def logpdf_batches(w):
    from matrix import Dense
    from stheno import Normal

    n, b = w.dim("n"), w.dim("b")
    num = w.dim("number of values", ("one", "many"))
    M, V = w.mat("m", n, 1, (b,)), w.pd("V", n, (b,))
    wrap = w.choose("variance", "array", "structured") == "structured"
    d = Normal(M, Dense(V) if wrap else V)
    x = w.mat("x", n, num, (b,))
    r = x - M @ w.ones(1, num)
    q = w.diag(w.T(r) @ w.inv(V) @ r)
    c = w.logdet_batch(V) + w.number(n) * w.log2pi()
    got = d.logpdf(x)
    if num == 1:
        w.true("a scalar per element", len(got.shape) == 1)
        w.eq("log-density", got, (c + w.scalar(q)) * -0.5)
    else:
        w.true("a vector per element", len(got.shape) == 2)
        w.eq("log-densities", w.as_column(got), (w.per_batch(c, num) + q) * -0.5)


def batch(w, n, b, name):
    """A batch of normals, and their means and variances."""
    from matrix import Dense
    from stheno import Normal

    V = w.pd("V" + name, n, (b,))
    var = Dense(V) if w.choose("variance" + name, "array", "structured") == "structured" else V
    w.nonneg(w.diag(V))
    kind = w.choose("mean" + name, "one per element", "one", "implied")
    if kind == "implied":
        return Normal(var), w.zeros(n, 1), V
    M = w.mat("m" + name, n, 1, (b,) if kind == "one per element" else ())
    return Normal(M, var), M, V


@contract(
    "closed forms of batches",
    "stheno.random:Normal.entropy",
    "stheno.random:Normal.kl",
    "stheno.random:Normal.w2",
    "stheno.random:Normal.m2",
    "stheno.random:Normal.diagonalise",
    "stheno.random:Normal.marginal_credible_bounds",
    "stheno.random:Normal.marginals",
    assumes=("the squared 2-Wasserstein distance is nonnegative",),
)
def closed_forms_batches(w):
    n, b = w.dim("n", ("many", "one")), w.dim("b", ("many", "one"))
    d, M1, V1 = batch(w, n, b, "1")
    what = w.choose("what", "entropy", "divergence", "distance", "second moment", "bounds", "diagonalised")
    if what in ("divergence", "distance"):
        e, M2, V2 = batch(w, n, b, "2")
    size = w.number(n)
    if what == "entropy":
        w.eq("entropy", d.entropy(), (w.logdet_batch(V1) + size * (w.log2pi() + 1)) * 0.5)
    elif what == "divergence":
        r = M2 - M1
        want = w.scalar(w.T(r) @ w.inv(V2) @ r) + w.trace(w.inv(V2) @ V1) + w.logdet_batch(V2) - w.logdet_batch(V1)
        w.eq("divergence", d.kl(e), (want - size) * 0.5)
    elif what == "distance":
        R = w.root(V1)
        r = M1 - M2
        squared = w.scalar(w.T(r) @ r) + w.trace(V1) + w.trace(V2) - w.trace(w.root(R @ V2 @ R)) * 2
        w.nonneg(squared)
        w.eq("distance", d.w2(e), w.sqrt(squared))
    elif what == "second moment":
        w.eq("second moment", d.m2, V1 + M1 @ w.T(M1))
    elif what == "bounds":
        m, lower, upper = d.marginal_credible_bounds()
        e = w.sqrt(w.diag(V1)) * 1.96
        w.eq("means", w.as_column(m), M1)
        w.eq("lower", w.as_column(lower), M1 - e)
        w.eq("upper", w.as_column(upper), M1 + e)
    else:
        e = d.diagonalise()
        w.eq("mean", e.mean, M1)
        w.eq("variance", e.var, w.dg(w.diag(V1)))


@contract("log-densities with missing values", *LOGPDF)
def missing(w):
    """The log-density of the available values under their marginal."""
    n = w.dim("n", ("many", "one"))
    d, M, V, iV, ld = normal(w, n, var_kind=w.choose("variance", "array", "diagonal"))
    x = w.column("x", n)
    mask = w.mask("available", n)
    S = w.selection(mask)
    r, C = S @ (x - M), S @ V @ w.T(S)
    want = (w.logdet(C) + w.number(S.shape[0]) * w.log2pi() + w.scalar(w.T(r) @ w.inv(C) @ r)) * -0.5
    w.eq("log-density", d.logpdf(w.missing(x, mask)), want)


@contract("entropy", "stheno.random:Normal.entropy")
def entropy(w):
    n = dims(w)
    d, M, V, iV, ld = normal(w, n)
    w.eq("entropy", d.entropy(), (ld + w.number(n) * (w.log2pi() + 1)) * 0.5)


@contract("Kullback-Leibler divergence", "stheno.random:Normal.kl")
def kl(w):
    n = dims(w)
    same = w.choose("other", "different", "the same") == "the same"
    kinds = ("array", "structured", "diagonal") + (() if same or n == 1 else ("low rank plus diagonal",))
    mean1, var1 = w.choose("mean1", "implied", "array", "zero matrix"), w.choose("variance1", *kinds)
    d, M1, V1, iV1, ld1 = normal(w, n, mean1, var1, name="1")
    if same:
        w.eq("divergence to itself", d.kl(d), w.scalar(w.zeros(1, 1)))
        return
    e, M2, V2, iV2, ld2 = normal(w, n, w.choose("mean2", "literal zero", "structured", "array"), name="2")
    r = M2 - M1
    want = (w.scalar(w.T(r) @ iV2 @ r) + w.trace(iV2 @ V1) + ld2 - ld1 - w.number(n)) * 0.5
    w.eq("divergence", d.kl(e), want)


@contract("2-Wasserstein distance", "stheno.random:Normal.w2", assumes=("the squared 2-Wasserstein distance is nonnegative",))
def w2(w):
    n = dims(w)
    kinds = ("array", "structured", "diagonal")
    d, M1, V1, *_ = normal(w, n, w.choose("mean1", "implied", "array", "zero matrix"), w.choose("variance1", *kinds), name="1")
    e, M2, V2, *_ = normal(w, n, w.choose("mean2", "literal zero", "structured", "array"), w.choose("variance2", *kinds), name="2")
    R = w.root(V1)
    r = M1 - M2
    squared = w.scalar(w.T(r) @ r) + w.trace(V1) + w.trace(V2) - w.trace(w.root(R @ V2 @ R)) * 2
    w.nonneg(squared)
    w.eq("distance", d.w2(e), w.sqrt(squared))


@contract("second moment", "stheno.random:Normal.m2")
def m2(w):
    n = dims(w)
    d, M, V, *_ = normal(w, n)
    w.eq("second moment", d.m2, V + M @ w.T(M))


@contract("credible bounds", "stheno.random:Normal.marginal_credible_bounds", "stheno.random:Normal.marginals")
def bounds(w):
    n = dims(w)
    d, M, V, *_ = normal(w, n)
    m, lower, upper = d.marginal_credible_bounds()
    e = w.sqrt(w.diag(V)) * 1.96
    w.eq("means", w.as_column(m), M)
    w.eq("lower", w.as_column(lower), M - e)
    w.eq("upper", w.as_column(upper), M + e)


@contract("diagonalise", "stheno.random:Normal.diagonalise")
def diagonalise(w):
    from stheno import Normal

    n = dims(w)
    d, M, V, *_ = normal(w, n)
    e = d.diagonalise()
    D = w.dg(w.diag(V))
    w.true("a normal", isinstance(e, Normal))
    w.eq("mean", e.mean, M)
    w.eq("variance", e.var, D)
    w.eq("marginal variances", w.as_column(e.marginals()[1]), w.diag(V))
    w.eq("original mean", d.mean, M)
    w.eq("original variance", d.var, V)
