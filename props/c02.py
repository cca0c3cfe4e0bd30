"""C02: input operations on a process have the exact joint law."""
from pyvc.world import contract

from .common import DETERMINISTIC, touch


def scene(w):
    zero = w.choose("zero means", (), ("p",))
    m, p, q, r = w.law("p", "q", "r", zero_mean=zero, independent=w.choose("independent", (), ("pr",), DETERMINISTIC))
    measures = [("prior", m, "")]
    if w.choose("posterior", False, True):
        measures.append(("posterior", w.posterior(m, "P."), "P."))
    touch(w, m, [p, q, r])
    return m, p, q, r, measures


def conclude(w, s, t, m, p, q, r, measures, x, y, x2):
    """`s` is `p` at the inputs transformed by `t`."""
    for name, measure, P in measures:
        w.eq(f"{name} mean", measure.means[s](x), w.M(P + "p", t(x)))
        k = measure.kernels[s]
        w.eq(f"{name} covariance", k(x, y), w.K(P + "p", P + "p", t(x), t(y)))
        w.eq(f"{name} covariance at equal inputs", k(x), w.K(P + "p", P + "p", t(x), t(x)))
        w.eq(f"{name} variances", k.elwise(x), w.diag(w.K(P + "p", P + "p", t(x), t(x))))
        w.eq(f"{name} element-wise covariances", k.elwise(x, x2), w.diag(w.K(P + "p", P + "p", t(x), t(x2))))
        # The operand is defined on other inputs than the result if the operation changes the dimensionality.
        for o, op in (("p", p), ("q", q), ("r", r)):
            w.eq(f"{name} cross-covariance with {o}, left", measure.kernels[s, op](x, y), w.K(P + "p", P + o, t(x), y))
            w.eq(f"{name} cross-covariance with {o}, right", measure.kernels[op, s](x, y), w.K(P + o, P + "p", x, t(y)))
            w.eq(
                f"{name} element-wise cross-covariance with {o}",
                measure.kernels[s, op].elwise(x, x2),
                w.diag(w.K(P + "p", P + o, t(x), x2)),
            )
            w.eq(
                f"{name} cross-covariance with {o} at equal inputs",
                measure.kernels[op, s](x),
                w.K(P + o, P + "p", x, t(x)),
            )
    w.eq("own mean", s.mean(x), w.M("p", t(x)))
    w.eq("own kernel", s.kernel(x, y), w.K("p", "p", t(x), t(y)))


def data(w, d, batches=True):
    n, m = w.dim("n", ("many", "one")), w.dim("m")
    b = (w.dim("b"),) if batches and d is not None and w.choose("batch", False, True) else ()
    return w.input("x", n, d, b), w.input("y", m, d, b), w.input("x2", n, d, b)


def parameter(w, d):
    c = w.choose("parameter", "c", "vector", 1, 2.5, -1)
    if c == "c":
        return w.num("c")
    if c == "vector":
        w.assume(d == 2)
        return w.vec("cs", 2, positive=True)
    return c


def rows(w, f, x, c):
    """Apply `f` to all rows of the input and the parameter."""
    x = w.col(x)
    return f(x, c)


@contract("GP.shift", "stheno.model.gp:GP.shift", "stheno.model.measure:Measure.shift")
def shift(w):
    m, p, q, r, measures = scene(w)
    d = w.choose("d", None, 2)
    c = parameter(w, d)
    conclude(w, p.shift(c), lambda x: w.col(x) - c, m, p, q, r, measures, *data(w, d))


@contract("GP.stretch", "stheno.model.gp:GP.stretch", "stheno.model.measure:Measure.stretch")
def stretch(w):
    m, p, q, r, measures = scene(w)
    d = w.choose("d", None, 2)
    c = parameter(w, d)
    conclude(w, p.stretch(c), lambda x: w.col(x) / c, m, p, q, r, measures, *data(w, d))


@contract("GP.transform", "stheno.model.gp:GP.transform", "stheno.model.measure:Measure.transform")
def transform(w):
    m, p, q, r, measures = scene(w)
    e = w.choose("output dimensionality", 1, 3)
    f = w.fn("f", e)
    conclude(w, p.transform(f), lambda x: w.apply("f", x, e), m, p, q, r, measures, *data(w, w.choose("d", None, 2)))


@contract("GP.select", "stheno.model.gp:GP.select", "stheno.model.measure:Measure.select")
def select(w):
    m, p, q, r, measures = scene(w)
    dims = w.choose("dims", (0,), (1,), (0, 1), (2, 0), (1, 1))
    s = p.select(*dims)
    conclude(w, s, lambda x: w.columns(x, dims), m, p, q, r, measures, *data(w, 3))


@contract(
    "compositions",
    "stheno.model.gp:GP.shift",
    "stheno.model.gp:GP.stretch",
    "stheno.model.gp:GP.select",
    "stheno.model.gp:GP.transform",
)
def compositions(w):
    m, p, q, r, measures = scene(w)
    a, b = w.num("a"), w.num("b")
    f = w.fn("f", 3)
    s, t = [
        (lambda: p.shift(a).stretch(b), lambda x: w.col(x) / b - a),
        (lambda: p.stretch(b).shift(a), lambda x: (w.col(x) - a) / b),
        (lambda: p.transform(f).shift(a), lambda x: w.apply("f", w.col(x) - a, 3)),
        (lambda: p.select(2, 1).transform(f), lambda x: w.columns(w.apply("f", x, 3), (2, 1))),
        (lambda: p.shift(a).select(1), lambda x: w.columns(x, (1,)) - a),
    ][w.choose("kind", *range(5))]
    conclude(w, s(), t, m, p, q, r, measures, *data(w, 2))


@contract(
    "GP.diff",
    "stheno.model.gp:GP.diff",
    "stheno.model.measure:Measure.diff",
    assumes=("mlkernels' DerivativeKernel and DerivativeMean compute partial derivatives (automatic differentiation)",),
    runs=15,
    floats=True,
)
def diff(w):
    m, p, q, r, measures = scene(w)
    d = w.choose("d", 1, 2)
    i = w.choose("dimension", *((0, "default") if d == 1 else (0, 1, "default")))
    s = p.diff() if i == "default" else p.diff(i)
    i = 0 if i == "default" else i
    x, y, x2 = (w.tensor(z) for z in data(w, d, False))
    D = f"∂{i}"
    for name, measure, P in measures:
        w.eq(f"{name} mean", measure.means[s](x), w.M(D + P + "p", x))
        k = measure.kernels[s]
        w.eq(f"{name} covariance", k(x, y), w.K(D + P + "p", D + P + "p", x, y))
        w.eq(f"{name} covariance at equal inputs", k(x), w.K(D + P + "p", D + P + "p", x, x))
        w.eq(f"{name} variances", k.elwise(x), w.diag(w.K(D + P + "p", D + P + "p", x, x)))
        for o, op in (("p", p), ("q", q), ("r", r)):
            if w.zero_kernel(P + "p", P + o):
                want = lambda u, v: w.zeros(u.shape[0], v.shape[0])
                left = right = want
            else:
                left = lambda u, v: w.K(D + P + "p", P + o, u, v)
                right = lambda u, v: w.K(P + o, D + P + "p", u, v)
            w.eq(f"{name} cross-covariance with {o}, left", measure.kernels[s, op](x, y), left(x, y))
            w.eq(f"{name} cross-covariance with {o}, right", measure.kernels[op, s](x, y), right(x, y))
            w.eq(f"{name} element-wise cross-covariance with {o}", measure.kernels[s, op].elwise(x, x2), w.diag(left(x, x2)))


@contract(
    "GP.diff_approx",
    "stheno.model.gp:GP.diff_approx",
    assumes=("fdm.central_fdm gives a grid, coefficients and a step size of a finite-difference approximation",),
    bounded="number of grid points: 2 and 3 (symbolic), up to 6 (numeric)",
)
def diff_approx(w):
    m, p, q, r, measures = scene(w)
    deriv = w.choose("deriv", 1, 2)
    x, y, x2 = data(w, 1)
    if not w.sym:
        s = p.diff_approx(deriv, w.choose("order", 5, 6))
        D = "∂0" * deriv
        w.tol = 0.02
        for name, measure, P in measures:
            w.eq(f"{name} mean", measure.means[s](x), w.M(D + P + "p", x))
            for o, op in (("p", p), ("q", q), ("r", r)):
                if w.zero_kernel(P + "p", P + o):
                    w.eq(f"{name} cross-covariance with {o}", measure.kernels[s, op](x, y), w.zeros(x.shape[-2], y.shape[-2]))
                else:
                    w.eq(f"{name} cross-covariance with {o}", measure.kernels[s, op](x, y), w.K(D + P + "p", P + o, x, y))
        return
    order = deriv + 1 if deriv == 1 else 3
    g = w.fdm(order, deriv)
    with g.installed():
        s = p.diff_approx(deriv, order)
    h = g.step_value ** deriv
    shifted = [(c / h, (lambda gi: lambda x: w.col(x) + gi * g.step_value)(gi)) for gi, c in zip(g.grid, g.coefs)]
    for name, measure, P in measures:
        a = P + "p"
        mean = sum((w.M(a, t(x)) * c for c, t in shifted[1:]), w.M(a, shifted[0][1](x)) * shifted[0][0])
        w.eq(f"{name} mean", measure.means[s](x), mean)
        cov = w.zeros(x.shape[-2], y.shape[-2])
        for c1, t1 in shifted:
            for c2, t2 in shifted:
                cov = cov + w.K(a, a, t1(x), t2(y)) * c1 * c2
        w.eq(f"{name} covariance", measure.kernels[s](x, y), cov)
        for o, op in (("p", p), ("q", q), ("r", r)):
            left = w.zeros(x.shape[-2], y.shape[-2])
            right = left
            for c, t in shifted:
                left = left + w.K(a, P + o, t(x), y) * c
                right = right + w.K(P + o, a, x, t(y)) * c
            w.eq(f"{name} cross-covariance with {o}, left", measure.kernels[s, op](x, y), left)
            w.eq(f"{name} cross-covariance with {o}, right", measure.kernels[op, s](x, y), right)
