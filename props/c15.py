"""C15: affine maps and samples of normals follow the distribution's law."""
from pyvc.world import contract

from .c14 import batch, normal

ARITHMETIC = tuple(f"stheno.random:Random.{x}" for x in ("__radd__", "__rmul__", "__neg__", "__sub__", "__rsub__", "__truediv__"))
ADD, MUL = "stheno.random:Normal.__add__", "stheno.random:Normal.__mul__"
SAMPLE = ("stheno.random:Normal.sample",)


def law(w, label, d, mean, var):
    from stheno import Normal

    w.true(label + ": a normal", isinstance(d, Normal))
    order = w.choose("asked first", "mean", "variance", "marginals")
    if order == "mean":
        w.eq(label + ": mean", d.mean, mean)
        w.eq(label + ": variance", d.var, var)
        return
    if order == "variance":
        w.eq(label + ": variance", d.var, var)
        w.eq(label + ": mean", d.mean, mean)
        return
    w.nonneg(w.diag(var))
    m, v = d.marginals()
    w.eq(label + ": marginal means", w.as_column(m), mean)
    w.eq(label + ": marginal variances", w.as_column(v), w.diag(var))


def dims(w):
    return w.dim("n", ("many", "one"))


def scalar(w, *kinds):
    kind = w.choose("scalar", *(kinds or ("number", "integer", "zero", "negative")))
    return {"number": lambda: w.num("c"), "integer": lambda: 3, "zero": lambda: 0, "negative": lambda: -0.5}[kind]()


@contract("normals plus constants", ADD, *ARITHMETIC)
def constants(w):
    n = dims(w)
    d, M, V, *_ = normal(w, n)
    if w.choose("constant", "scalar", "column") == "scalar":
        c = scalar(w)
        C = w.ones(n, 1) * c
    else:
        c = C = w.mat("c", n, 1)
    how = w.choose("how", "n + c", "c + n", "n - c", "c - n")
    if how == "n + c":
        law(w, how, d + c, M + C, V)
    elif how == "c + n":
        law(w, how, c + d, M + C, V)
    elif how == "n - c":
        law(w, how, d - c, M - C, V)
    else:
        law(w, how, c - d, C - M, V)
    w.eq("mean of the operand", d.mean, M)
    w.eq("variance of the operand", d.var, V)


@contract("normals times scalars", MUL, *ARITHMETIC)
def scalars(w):
    n = dims(w)
    d, M, V, *_ = normal(w, n)
    how = w.choose("how", "n * c", "c * n", "n / c", "-n")
    if how == "-n":
        law(w, how, -d, w.zeros(n, 1) - M, V)
    elif how == "n / c":
        c = w.num("c", positive=True) if w.choose("divisor", "number", "integer") == "number" else 4
        law(w, how, d / c, M * (1 / c), V * ((1 / c) * (1 / c)))
    else:
        c = scalar(w)
        law(w, how, d * c if how == "n * c" else c * d, M * c, V * (c * c))
    w.eq("mean of the operand", d.mean, M)
    w.eq("variance of the operand", d.var, V)


@contract("normals plus normals", ADD, *ARITHMETIC)
def normals(w):
    """The operands are independent."""
    n = dims(w)
    first = w.choose("mean1", "implied", "array", "structured", "zero matrix")
    d, M1, V1, *_ = normal(w, n, first, w.choose("variance1", "array", "diagonal"), name="1")
    if w.choose("other", "different", "the same") == "the same":
        e, M2, V2 = d, M1, V1
    else:
        e, M2, V2, *_ = normal(w, n, None, w.choose("variance2", "array", "structured", "diagonal"), name="2")
    how = w.choose("how", "n + m", "n - m")
    if how == "n + m":
        law(w, how, d + e, M1 + M2, V1 + V2)
    else:
        law(w, how, d - e, M1 - M2, V1 + V2)


@contract("matrix multiplication", "stheno.random:Normal.lmatmul", "stheno.random:Normal.rmatmul")
def matmul(w):
    from matrix import Dense

    n, k = dims(w), w.dim("k", ("many", "one"))
    d, M, V, *_ = normal(w, n)
    wrap = Dense if w.choose("matrix", "array", "structured") == "structured" else (lambda x: x)
    if w.choose("side", "left", "right") == "left":
        A = w.mat("A", k, n)
        law(w, "left", d.lmatmul(wrap(A)), A @ M, A @ V @ w.T(A))
    else:
        A = w.mat("A", n, k)
        law(w, "right", d.rmatmul(wrap(A)), w.T(A) @ M, w.T(A) @ V @ A)


@contract("combined operations", ADD, MUL, *ARITHMETIC, "stheno.random:Normal.lmatmul")
def combined(w):
    n, k = dims(w), w.dim("k", ("many",))
    d, M1, V1, *_ = normal(w, n, None, w.choose("variance1", "array", "diagonal"), name="1")
    e, M2, V2, *_ = normal(w, k, None, "array", name="2")
    A, a, b, c = w.mat("A", k, n), w.num("a"), w.num("b"), w.mat("c", k, 1)
    f = (c - (a * d).lmatmul(A)) + e * b
    law(w, "c - A (a d) + b e", f, c - A @ M1 * a + M2 * b, A @ V1 @ w.T(A) * (a * a) + V2 * (b * b))


def noisy(w, n, V):
    noise = w.choose("noise", "none", "given", "number")
    if noise == "none":
        return {}, V
    c = w.num("noise", positive=True) if noise == "given" else 0.25
    return {"noise": c}, V + w.eye(n) * c


@contract("samples", *SAMPLE)
def samples(w):
    n = dims(w)
    d, M, V, *_ = normal(w, n)
    kw, V = noisy(w, n, V)
    source = w.choose("source", "state", "global")
    num = w.choose("number of samples", None, 1, 2, "many")
    num = w.dim("num") if num == "many" else num
    one = 1 if num is None else num

    def f(state):
        args = () if num is None else (num,)
        if state is None:
            x = d.sample(*args, **kw)
        else:
            new, x = d.sample(state, *args, **kw)
        w.true("a matrix with a column per sample", len(x.shape) == 2)
        return x if state is None else (new, x)

    mean, var = w.draws("samples", f, one, source)
    w.eq("mean of the samples", mean, M)
    w.eq("variance of the samples", var, V)
    w.eq("mean of the distribution", d.mean, M)


@contract("operations on batches", ADD, MUL, *ARITHMETIC, "stheno.random:Normal.lmatmul", "stheno.random:Normal.rmatmul")
def operations_batches(w):
    n, b = dims(w), w.dim("b", ("many", "one"))
    d, M1, V1 = batch(w, n, b, "1")
    what = w.choose("what", "constant", "scalar", "normal", "left", "right")
    if what == "constant":
        if w.choose("constant", "scalar", "columns") == "scalar":
            c = w.num("c")
            C = w.ones(n, 1) * c
        else:
            c = C = w.mat("c", n, 1, (b,))
        law(w, "n + c", d + c, M1 + C, V1)
        law(w, "c - n", c - d, C - M1, V1)
    elif what == "scalar":
        c = w.num("c")
        law(w, "c * n", c * d, M1 * c, V1 * (c * c))
        law(w, "-n", -d, w.zeros(n, 1) - M1, V1)
    elif what == "normal":
        e, M2, V2 = batch(w, n, b, "2")
        law(w, "n + m", d + e, M1 + M2, V1 + V2)
        law(w, "n - m", d - e, M1 - M2, V1 + V2)
    elif what == "left":
        A = w.mat("A", w.dim("k"), n, w.choose("matrix", (), (b,)))
        law(w, "left", d.lmatmul(A), A @ M1, A @ V1 @ w.T(A))
    else:
        A = w.mat("A", n, w.dim("k"), w.choose("matrix", (), (b,)))
        law(w, "right", d.rmatmul(A), w.T(A) @ M1, w.T(A) @ V1 @ A)


@contract("samples of batches", *SAMPLE, numeric_only=True)
def samples_batches(w):
    """The elements of a batch are independent."""
    n, b = dims(w), w.dim("b", ("many", "one"))
    d, M, V = batch(w, n, b, "1")
    noise = w.choose("noise", None, 0.25)
    num = w.choose("number of samples", None, 1, 3)
    kw = {} if noise is None else {"noise": noise}

    def f(state):
        args = () if num is None else (num,)
        new, x = (None, d.sample(*args, **kw)) if state is None else d.sample(state, *args, **kw)
        w.true("a matrix with a column per sample for every element", tuple(x.shape) == (b, n, num or 1))
        return w.unbatched(x) if state is None else (new, w.unbatched(x))

    mean, var = w.draws("samples", f, num or 1, w.choose("source", "state", "global"))
    M = M + w.zeros_batch(b, n, 1)
    V = V + w.eye(n) * (noise or 0)
    w.eq("mean of the samples", mean, w.unbatched(M))
    w.eq("variance of the samples", var, w.batch_diagonal(V))


@contract("samples with keywords", *SAMPLE)
def keywords(w):
    n = w.dim("n")
    d, M, V, *_ = normal(w, n, w.choose("mean", "literal zero", "array"), w.choose("variance", "array", "diagonal"))
    kw, V = noisy(w, n, V)
    num = w.dim("num")
    source = w.choose("source", "state", "global")

    def f(state):
        return d.sample(num=num, **kw) if state is None else d.sample(state, num=num, **kw)

    mean, var = w.draws("samples", f, num, source)
    w.eq("mean of the samples", mean, M)
    w.eq("variance of the samples", var, V)
