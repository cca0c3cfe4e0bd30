"""C16: inducing-point conditioning is the exact optimum of its approximation."""
from pyvc.world import contract

from .c08 import FEW, Law, check, points, prior_law, shape, values, different_sizes, structured

METHODS = ("vfe", "fitc", "dtc")
FUNCTIONS = (
    "stheno.model.observations:AbstractPseudoObservations.__init__",
    "stheno.model.observations:AbstractPseudoObservations._compute",
    "stheno.model.observations:AbstractPseudoObservations.K_z",
    "stheno.model.observations:AbstractPseudoObservations.mu",
    "stheno.model.observations:AbstractPseudoObservations.A",
    "stheno.model.observations:AbstractPseudoObservations.posterior_mean",
    "stheno.model.observations:AbstractPseudoObservations.posterior_kernel",
)
ELBO = ("stheno.model.observations:AbstractPseudoObservations.elbo", "stheno.model.measure:Measure.logpdf")
PAIRS = [("p", "q"), ("q", "p"), ("f", "p"), ("f", "f")]


def classes():
    from stheno import PseudoObs, PseudoObsDTC, PseudoObsFITC

    return {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}


class Model:
    """The approximate model: observations `y` of the stack `X` of processes at inputs through the stack `Z`.

    Args:
        X (list): Pairs of names and inputs.
        Z (list): Pairs of names and inputs.
        N: Variance of the noise of the observations.
        Nz: Variance of the noise of the inducing points.
        S (optional): Selection of the observations that are available.
    """

    def __init__(self, w, law, method, X, Z, N, Nz, y, S=None):
        S = w.eye(y.shape[-2]) if S is None else S
        self.w, self.law, self.X, self.Z, self.y, self.method = w, law, X, Z, S @ y, method
        self.m = S @ w.stack(*[law.M(a, x) for a, x in X])
        Kxx = S @ self.cov(X, X) @ w.T(S)
        Kxz = S @ self.cov(X, Z)
        N = S @ N @ w.T(S)
        Kz = self.cov(Z, Z) + Nz
        self.Kz, self.Kxz = Kz, Kxz
        Q = Kxz @ w.inv(Kz) @ w.T(Kxz)
        self.rest = w.dg(w.diag(Kxx - Q))
        self.N0 = N
        self.N = N + self.rest if method == "fitc" else N
        self.S = Kz + w.T(Kxz) @ w.inv(self.N) @ Kxz

    def cov(self, X, Y):
        return self.w.blocks([[self.law.K(a, b, x, y) for b, y in Y] for a, x in X])

    def posterior(self):
        """The law of the posterior of the approximate model."""
        w, law = self.w, self.law

        def to(a, u):
            return self.cov([(a, u)], self.Z)

        def M(a, u):
            return law.M(a, u) + to(a, u) @ w.inv(self.S) @ w.T(self.Kxz) @ w.inv(self.N) @ (self.y - self.m)

        def K(a, b, u, v):
            return law.K(a, b, u, v) - to(a, u) @ (w.inv(self.Kz) - w.inv(self.S)) @ w.T(to(b, v))

        return Law(w, M, K)

    def objective(self):
        """The log-density under the low-rank variance, minus a trace for VFE."""
        w = self.w
        n = self.m.shape[-2]
        r = self.y - self.m
        q = w.T(r) @ w.lowrank_inv(self.N, self.Kxz, self.Kz) @ r
        res = (w.scalar(q) + w.lowrank_logdet(self.N, self.Kxz, self.Kz) + w.number(n) * w.log2pi()) * -0.5
        if self.method == "vfe":
            res = res - w.trace(w.inv(self.N0) @ self.rest) * 0.5
        return res


def diagonal_noise(w, n, name="noise", kinds=("scalar", "vector", "diagonal")):
    from .c12 import make_noise

    return make_noise(w, n, name, kinds)


def scene(w, *others):
    m, p, q, f, z = w.law("p", "q", "f", "z")
    ps = dict(p=p, q=q, f=f, z=z)
    if w.choose("measure", "prior", *others) == "posterior":
        return w.posterior(m, "P."), ps, prior_law(w, "P.")
    return m, ps, prior_law(w)


@contract("posterior and ELBO", *FUNCTIONS, *ELBO)
def one(w):
    m, ps, law = scene(w, "posterior")
    method = w.choose("method", *METHODS)
    d = w.choose("d", None, *w.more(2))
    u, v, u2 = points(w, d)
    k, l = w.dim("k", ("many", "one")), w.dim("kz", ("many", "one"))
    x, xz = w.input("x", k, d), w.input("xz", l, d)
    noise, N = diagonal_noise(w, k)
    noisez, Nz = diagonal_noise(w, l, "noisez", ("none", "scalar", *w.more("vector")))
    y, Y = values(w, k) if w.tier == "thorough" else (w.column("y", k),) * 2
    a, z = w.choose("observed and inducing", ("f", "z"), ("f", "f"), ("f", "p"))
    obs = classes()[method](ps[z](xz, noisez), ps[a](x, noise), y)
    model = Model(w, law, method, [(a, x)], [(z, xz)], N, Nz, Y)
    order = w.choose("first", "ELBO", "posterior")
    if order == "ELBO":
        w.eq("ELBO", obs.elbo(m), model.objective())
    post = m | obs if w.choose("style", "|", *w.more("condition")) == "|" else m.condition(obs)
    check(w, "posterior", post, ps, model.posterior(), u, v, u2, PAIRS if (a, z) == ("f", "z") else FEW)
    w.eq("ELBO after posterior", obs.elbo(m), model.objective())
    w.eq("logpdf", m.logpdf(obs), model.objective())
    check(w, "prior", m, ps, law, u, v, u2, [("p", "q")])


@contract("batches", *FUNCTIONS, *ELBO)
def batches(w):
    """A batch of inputs and values has a batch of posteriors and ELBOs."""
    m, ps, law = scene(w, *w.more("posterior"))
    method = w.choose("method", *METHODS)
    u, v, u2 = points(w, "batch")
    d, b = shape(w, "batch")
    k, l = w.dim("k", ("many", *w.more("one"))), w.dim("kz", ("many", *w.more("one")))
    x, xz = w.input("x", k, d, b), w.input("xz", l, d, b)
    noise, N = diagonal_noise(w, k, kinds=("vector", "scalar"))
    noisez, Nz = diagonal_noise(w, l, "noisez", ("none", "scalar"))
    y = w.mat("y", k, 1, w.choose("values", b, ()))
    a, z = w.choose("observed and inducing", ("f", "z"), *w.more(("f", "f"), ("f", "p")))
    obs = classes()[method](ps[z](xz, noisez), ps[a](x, noise), y)
    model = Model(w, law, method, [(a, x)], [(z, xz)], N, Nz, y)
    check(w, "posterior", m | obs, ps, model.posterior(), u, v, u2, PAIRS if (a, z) == ("f", "z") else FEW)
    w.eq("ELBO", obs.elbo(m), model.objective())
    w.eq("logpdf", m.logpdf(obs), model.objective())


@contract("kernels with structure", *FUNCTIONS, *ELBO)
def structures(w):
    """The observed process, the inducing one, or others have variances that are of low rank."""
    m, p = w.law("p")
    ps = dict(p=p)
    law = structured(w, m, prior_law(w), ps)
    ps["s"] = ps["p"] + ps["c"] - ps["l"]
    law = law.combined(s={"p": 1, "c": 1, "l": -1})
    method = w.choose("method", *METHODS)
    d = w.choose("d", None, *w.more(2))
    a, z = w.choose("observed and inducing", ("s", "p"), ("p", "s"))
    n, l, k, kz = different_sizes(w, "n", "l", "k", "kz") if w.tier == "thorough" else [w.dim(i) for i in ("n", "l", "k", "kz")]
    u, v, u2 = w.input("u", n, d), w.input("v", l, d), w.input("u2", n, d)
    x, xz = w.input("x", k, d), w.input("xz", kz, d)
    noise, N = diagonal_noise(w, k, kinds=("vector", "scalar"))
    y = w.column("y", k)
    obs = classes()[method](ps[z](xz), ps[a](x, noise), y)
    model = Model(w, law, method, [(a, x)], [(z, xz)], N, w.zeros(kz, kz), y)
    check(w, "posterior", m | obs, ps, model.posterior(), u, v, u2, [("p", "s"), ("c", "p"), ("l", "l")])
    w.eq("ELBO", obs.elbo(m), model.objective())
    w.eq("logpdf", m.logpdf(obs), model.objective())


@contract("several observations and inducing processes", *FUNCTIONS, *ELBO, "stheno.model.observations:combine")
def several(w):
    m, ps, law = scene(w, *w.more("posterior"))
    method = w.choose("method", *METHODS)
    u, v, u2 = points(w)
    k1, k2, l1, l2 = (w.dim(i) for i in ("k1", "k2", "l1", "l2"))
    x1, x2, z1, z2 = (w.input(n, i) for n, i in (("x1", k1), ("x2", k2), ("z1", l1), ("z2", l2)))
    noise1, N1 = diagonal_noise(w, k1, "noise1", ("vector",))
    noise2, N2 = diagonal_noise(w, k2, "noise2", ("scalar",))
    y1, y2 = w.column("y1", k1), w.column("y2", k2)
    a, b = w.choose("observed", ("f", "q"), ("f", "f"))
    pair1, pair2 = (ps[a](x1, noise1), y1), (ps[b](x2, noise2), y2)
    cls = classes()[method]
    how = w.choose("how", "two inducing, two observed", "one inducing, two observed", "two inducing, one observed")
    if how == "two inducing, two observed":
        obs = cls((ps["z"](z1), ps["p"](z2)), pair1, pair2)
        Z = [("z", z1), ("p", z2)]
    elif how == "one inducing, two observed":
        obs = cls(ps["z"](z1), pair1, pair2)
        Z = [("z", z1)]
    else:
        obs = cls((ps["z"](z1), ps["f"](z2)), *pair1)
        Z = [("z", z1), ("f", z2)]
    if "two observed" in how:
        X, y = [(a, x1), (b, x2)], w.stack(y1, y2)
        N = w.blocks([[N1, w.zeros(k1, k2)], [w.zeros(k2, k1), N2]])
    else:
        X, y, N = [(a, x1)], y1, N1
    n = sum(i for _, i in [(0, t.shape[0]) for _, t in Z][1:]) + Z[0][1].shape[0]
    model = Model(w, law, method, X, Z, N, w.zeros(n, n), y)
    post = m | obs
    check(w, "posterior", post, ps, model.posterior(), u, v, u2, FEW)
    w.eq("ELBO", obs.elbo(m), model.objective())
    w.eq("logpdf", m.logpdf(obs), model.objective())


@contract("one object, several measures", *FUNCTIONS, *ELBO)
def reuse(w):
    m, p, q, f, z = w.law("p", "q", "f", "z")
    ps = dict(p=p, q=q, f=f, z=z)
    measures = {"": m, "A.": w.posterior(m, "A."), "B.": w.posterior(m, "B.")}
    method = w.choose("method", *METHODS)
    u, v, u2 = points(w)
    k, l = w.dim("k"), w.dim("kz")
    x, xz = w.input("x", k), w.input("xz", l)
    noise, N = diagonal_noise(w, k, kinds=("vector",))
    y = w.column("y", k)
    obs = classes()[method](z(xz), f(x, noise), y)

    def model(P):
        return Model(w, prior_law(w, P), method, [("f", x)], [("z", xz)], N, w.zeros(l, l), y)

    done = []
    for i in range(3 if w.tier == "thorough" else 2):
        P = w.choose(f"measure {i}", *measures)
        what = w.choose(f"operation {i}", "ELBO", "posterior")
        if what == "ELBO":
            w.eq(f"ELBO {i} of {P or 'prior'}", obs.elbo(measures[P]), model(P).objective())
        else:
            post = measures[P] | obs
            w.eq(f"mean {i} of {P or 'prior'}", post.means[p](u), model(P).posterior().M("p", u))
            done.append((i, P, post))
    for i, P, post in done:
        w.eq(f"kernel {i} of {P or 'prior'}", post.kernels[p, q](u, v), model(P).posterior().K("p", "q", u, v))


@contract("parameters of the optimum", *FUNCTIONS)
def parameters(w):
    """Mean and variance of the optimal distribution of the inducing points, in any order of access."""
    m, ps, law = scene(w, "posterior")
    method = w.choose("method", *METHODS)
    k, l = w.dim("k", ("many", *w.more("one"))), w.dim("kz", ("many", *w.more("one")))
    x, xz = w.input("x", k), w.input("xz", l)
    noise, N = diagonal_noise(w, k, kinds=("vector", *w.more("scalar", "diagonal")))
    y = w.column("y", k)
    obs = classes()[method](ps["z"](xz), ps["f"](x, noise), y)
    model = Model(w, law, method, [("f", x)], [("z", xz)], N, w.zeros(l, l), y)
    new = model.posterior()
    parts = {
        "K_z": lambda: (obs.K_z(m), law.K("z", "z", xz, xz)),
        "mu": lambda: (obs.mu(m), new.M("z", xz)),
        "A": lambda: (obs.A(m), model.S),
        "elbo": lambda: (obs.elbo(m), model.objective()),
    }
    first = w.choose("first", *parts)
    second = w.choose("second", *parts)
    for i in (first, second, *parts):
        w.eq(i, *parts[i]())


@contract("noise that is not diagonal is rejected", "stheno.model.observations:AbstractPseudoObservations._compute")
def rejected(w):
    from .c12 import make_noise

    m, ps, law = scene(w, "posterior")
    method = w.choose("method", *METHODS)
    k, l = w.dim("k"), w.dim("kz")
    x, xz = w.input("x", k), w.input("xz", l)
    noise, N = make_noise(w, k, "noise", ("matrix", "dense"))
    y = w.column("y", k)
    obs = classes()[method](ps["z"](xz), ps["f"](x, noise), y)
    w.raises("ELBO", RuntimeError, lambda: obs.elbo(m))
    w.raises("logpdf", RuntimeError, lambda: m.logpdf(obs))
    w.raises("posterior mean", RuntimeError, lambda: (m | obs).means[ps["p"]](x))
    w.raises("posterior kernel", RuntimeError, lambda: (m | obs).kernels[ps["p"]](x))


@contract("names of the classes", "stheno.model.observations:PseudoObservations.method")
def names(w):
    import stheno as s

    w.true("PseudoObs", s.PseudoObs is s.PseudoObservations and s.SparseObs is s.PseudoObservations)
    w.true("SparseObservations", s.SparseObservations is s.PseudoObservations)
    w.true("FITC", s.PseudoObsFITC is s.PseudoObservationsFITC)
    w.true("DTC", s.PseudoObsDTC is s.PseudoObservationsDTC)
    w.true("Obs", s.Obs is s.Observations)
    for c, method in ((s.PseudoObs, "vfe"), (s.PseudoObsFITC, "fitc"), (s.PseudoObsDTC, "dtc")):
        m, p, f = w.law("p", "f")
        x = w.input("x", w.dim("k"))
        w.true(f"method {method}", c(p(x), f(x, 1), w.column("y", x.shape[0])).method == method)
