"""C09: missing observations are exactly equivalent to leaving them out."""
from pyvc.world import contract

from .c08 import FEW, Law, check, points, prior_law, values
from .c12 import make_noise
from .c16 import Model, classes, diagonal_noise

FUNCTIONS = (
    "stheno.model.observations:AbstractObservations.__init__",
    "stheno.model.fdd:take",
    "stheno.model.fdd:_take_x",
)
PSEUDO = ("stheno.model.observations:AbstractPseudoObservations.__init__",)
LOGPDF = ("stheno.random:Normal.logpdf", "stheno.model.measure:Measure.logpdf")


class Exact:
    """The law given the available part `S` of the values `y` of the stack `X` with noise `N`."""

    def __init__(self, w, law, X, N, y, S):
        self.w, self.law, self.X, self.S = w, law, X, S
        self.C = S @ (w.blocks([[law.K(a, b, x, z) for b, z in X] for a, x in X]) + N) @ w.T(S)
        self.r = S @ (y - w.stack(*[law.M(a, x) for a, x in X]))

    def posterior(self):
        w, law = self.w, self.law
        n = self.r.shape[0]

        def to(a, u):
            return w.blocks([[law.K(a, b, u, x) for b, x in self.X]]) @ w.T(self.S)

        return Law(
            w,
            lambda a, u: law.M(a, u) + to(a, u) @ w.inv(self.C) @ self.r,
            lambda a, b, u, v: law.K(a, b, u, v) - to(a, u) @ w.inv(self.C) @ w.T(to(b, v)),
        )

    def density(self):
        """Log-density of what is available."""
        w = self.w
        q = w.T(self.r) @ w.inv(self.C) @ self.r
        return (w.scalar(q) + w.logdet(self.C) + w.number(self.r.shape[0]) * w.log2pi()) * -0.5


def scene(w, *others):
    m, p, q, f = w.law("p", "q", "f")
    ps = dict(p=p, q=q, f=f)
    if w.choose("measure", "prior", *others) == "posterior":
        return w.posterior(m, "P."), ps, prior_law(w, "P.")
    return m, ps, prior_law(w)


@contract("one process", *FUNCTIONS, *LOGPDF)
def one(w):
    from stheno import Obs

    m, ps, law = scene(w, "posterior")
    d = w.choose("d", None, 2)
    u, v, u2 = points(w, d)
    k = w.dim("k", ("many", "one"))
    x = w.input("x", k, d)
    noise, N = make_noise(w, k)
    y, Y = values(w, k)
    mask = w.mask("available", k)
    y = w.missing(y, mask)
    S = w.selection(mask)
    exact = Exact(w, law, [("f", x)], N, Y, S)
    f = ps["f"](x, noise)
    how = w.choose("how", "condition", "observations")
    if how == "condition":
        post = m | (f, y)
    else:
        obs = Obs(f, y)
        post = m | obs
        w.eq("density of observations", m.logpdf(obs), exact.density())
    check(w, "posterior", post, ps, exact.posterior(), u, v, u2, [("p", "q"), ("f", "f")])
    w.eq("density", m.logpdf(f, y), exact.density())
    w.eq("density of the distribution", m(f).logpdf(y), exact.density())
    w.eq("distribution unchanged", f.var, ps["f"](x, noise).var)


@contract("several processes", *FUNCTIONS, *LOGPDF, "stheno.model.observations:combine", "stheno.mo.kernel:_take_x")
def several(w):
    from stheno import Obs

    m, ps, law = scene(w, *w.more("posterior"))
    u, v, u2 = points(w)
    k1, k2 = w.dim("k1", ("many", *w.more("one"))), w.dim("k2")
    a, b = w.choose("observed", ("f", "q"), ("f", "f"))
    x1, x2 = w.input("x1", k1), w.input("x2", k2)
    kinds = w.choose("noises", ("none", "matrix"), ("vector", "scalar"), *w.more(("matrix", "vector"), ("diagonal", "dense")))
    noise1, N1 = make_noise(w, k1, "noise1", kinds[:1])
    noise2, N2 = make_noise(w, k2, "noise2", kinds[1:])
    y1, y2 = w.column("y1", k1), w.column("y2", k2)
    mask1, mask2 = w.mask("available1", k1), w.mask("available2", k2)
    S1, S2 = w.selection(mask1), w.selection(mask2)
    S = w.blocks([[S1, w.zeros(S1.shape[0], k2)], [w.zeros(S2.shape[0], k1), S2]])
    N = w.blocks([[N1, w.zeros(k1, k2)], [w.zeros(k2, k1), N2]])
    exact = Exact(w, law, [(a, x1), (b, x2)], N, w.stack(y1, y2), S)
    pairs = (ps[a](x1, noise1), w.missing(y1, mask1)), (ps[b](x2, noise2), w.missing(y2, mask2))
    how = w.choose("how", "condition", "observations")
    if how == "condition":
        post = m.condition(*pairs)
        w.eq("density", m.logpdf(*pairs), exact.density())
    else:
        obs = Obs(*pairs)
        post = m | obs
        w.eq("density", m.logpdf(obs), exact.density())
    check(w, "posterior", post, ps, exact.posterior(), u, v, u2, [("p", "q")])


def multi(w, ps, x):
    """A multi-output process and the names and inputs that it stacks."""
    from stheno import cross

    kind = w.choose("process", "product", "nested", "repeated")
    p, q, f = ps["p"], ps["q"], ps["f"]
    if kind == "product":
        return cross(p, q), ("p", "q")
    if kind == "nested":
        return cross(q, cross(p, q)), ("q", "p", "q")
    return cross(p, p), ("p", "p")


@contract("multi-output processes", *FUNCTIONS, *LOGPDF, "stheno.mo.kernel:_take_x")
def multi_output(w):
    from stheno import Obs

    m, p, q, f = w.law("p", "q", "f")
    ps = dict(p=p, q=q, f=f)
    law = prior_law(w)
    u, v, u2 = points(w)
    k = w.dim("k", ("many", "one"))
    x = w.input("x", k)
    c, names = multi(w, ps, x)
    n = k * len(names)
    noise, N = make_noise(w, n, kinds=("scalar", "vector", "matrix", *w.more("diagonal", "dense")))
    y = w.column("y", n)
    mask = w.mask("available", *[k] * len(names))
    S = w.selection(mask)
    exact = Exact(w, law, [(a, x) for a in names], N, y, S)
    obs = Obs(c(x, noise), w.missing(y, mask))
    post = m | obs
    check(w, "posterior", post, ps, exact.posterior(), u, v, u2, [("p", "f")])
    w.eq("density", m.logpdf(obs), exact.density())
    w.eq("density of distribution", c(x, noise).logpdf(w.missing(y, mask)), exact.density())


@contract("tuples of inputs", *FUNCTIONS, "stheno.mo.kernel:_take_x")
def tuples(w):
    """A multi-output process at a tuple of distributions of its members."""
    from stheno import Obs, cross

    m, p, q, f = w.law("p", "q", "f")
    ps = dict(p=p, q=q, f=f)
    law = prior_law(w)
    u, v, u2 = points(w)
    k1, k2 = w.dim("k1"), w.dim("k2", ("many", *w.more("one")))
    x1, x2 = w.input("x1", k1), w.input("x2", k2)
    nested = w.choose("nested", False, True)
    if nested:
        inner = cross(p, q)
        c = cross(inner, f)
        X, ks, at = [("p", x1), ("q", x1), ("f", x2)], [k1, k1, k2], (inner(x1), f(x2))
    else:
        c = cross(p, q)
        names = w.choose("blocks", ("p", "q"), ("q", "p"), ("q", "q"))
        X, ks = list(zip(names, (x1, x2))), [k1, k2]
        at = tuple(ps[a](x) for a, x in X)
    n = sum(ks[1:], ks[0])
    noise, N = make_noise(w, n, kinds=("scalar", "vector", "matrix"))
    y = w.column("y", n)
    mask = w.mask("available", *ks)
    exact = Exact(w, law, X, N, y, w.selection(mask))
    obs = Obs(c(at, noise), w.missing(y, mask))
    post = m | obs
    check(w, "posterior", post, ps, exact.posterior(), u, v, u2, [("p", "f")])
    w.eq("density", m.logpdf(obs), exact.density())


@contract("inducing points", *FUNCTIONS, *PSEUDO)
def inducing(w):
    m, ps, law = scene(w, *w.more("posterior"))
    method = w.choose("method", "vfe", "fitc", "dtc")
    u, v, u2 = points(w)
    k, l = w.dim("k"), w.dim("kz", ("many", *w.more("one")))
    x, xz = w.input("x", k), w.input("xz", l)
    noise, N = diagonal_noise(w, k)
    y, Y = values(w, k)
    mask = w.mask("available", k)
    S = w.selection(mask)
    w.assume(S.shape[0] > 0)
    a, z = w.choose("observed and inducing", ("f", "p"), ("f", "f"))
    obs = classes()[method](ps[z](xz), ps[a](x, noise), w.missing(y, mask))
    model = Model(w, law, method, [(a, x)], [(z, xz)], N, w.zeros(l, l), Y, S)
    w.eq("ELBO", obs.elbo(m), model.objective())
    check(w, "posterior", m | obs, ps, model.posterior(), u, v, u2, FEW)


@contract("inducing points: several processes", *FUNCTIONS, *PSEUDO, "stheno.mo.kernel:_take_x")
def inducing_several(w):
    m, ps, law = scene(w)
    method = w.choose("method", "vfe", "fitc", "dtc")
    u, v, u2 = points(w)
    k1, k2, l = w.dim("k1"), w.dim("k2"), w.dim("kz")
    x1, x2, xz = w.input("x1", k1), w.input("x2", k2), w.input("xz", l)
    noise1, N1 = diagonal_noise(w, k1, "noise1", ("vector",))
    noise2, N2 = diagonal_noise(w, k2, "noise2", ("scalar",))
    y1, y2 = w.column("y1", k1), w.column("y2", k2)
    mask1 = w.mask("available1", k1)
    mask2 = w.mask("available2", k2)
    S1, S2 = w.selection(mask1), w.selection(mask2)
    w.assume(S1.shape[0] > 0)
    S = w.blocks([[S1, w.zeros(S1.shape[0], k2)], [w.zeros(S2.shape[0], k1), S2]])
    N = w.blocks([[N1, w.zeros(k1, k2)], [w.zeros(k2, k1), N2]])
    pairs = (ps["f"](x1, noise1), w.missing(y1, mask1)), (ps["q"](x2, noise2), w.missing(y2, mask2))
    obs = classes()[method](ps["p"](xz), *pairs)
    model = Model(w, law, method, [("f", x1), ("q", x2)], [("p", xz)], N, w.zeros(l, l), w.stack(y1, y2), S)
    w.eq("ELBO", obs.elbo(m), model.objective())
    w.eq("posterior mean", (m | obs).means[ps["p"]](u), model.posterior().M("p", u))
    w.eq("posterior variance", (m | obs).kernels[ps["q"], ps["p"]](u, v), model.posterior().K("q", "p", u, v))


@contract(
    "processes derived from multi-output processes",
    *FUNCTIONS,
    "stheno.model.fdd:_take_x",
    finding="missing-data-of-derived-multi-output",
)
def derived_multi_output(w):
    """Known finding: the inputs of such processes cannot be masked."""
    from stheno import Obs, cross

    m, p, q = w.law("p", "q")
    k = w.dim("k")
    x = w.input("x", k)
    c = 2 * cross(p, q)
    y = w.column("y", k * 2)
    mask = w.mask("available", k, k)
    w.assume(w.selection(mask).shape[0] < k * 2)
    Obs(c(x, 1), w.missing(y, mask))
