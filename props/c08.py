"""C08: conditioning gives the exact Gaussian conditional for every pair of processes."""
from pyvc.world import contract

from .c12 import make_noise
from .common import touch

NAMES = ("p", "q", "f")
# By symmetry between `p` and `q`, these are all kinds of pairs.
PAIRS = [("p", "q"), ("q", "p"), ("p", "p"), ("f", "p"), ("p", "f"), ("f", "f")]
FEW = [("p", "q"), ("f", "f")]
FUNCTIONS = (
    "stheno.model.measure:Measure.condition",
    "stheno.model.observations:AbstractObservations.__init__",
    "stheno.model.observations:Observations.K_x",
    "stheno.model.observations:Observations.posterior_mean",
    "stheno.model.observations:Observations.posterior_kernel",
)


class Law:
    """A joint law of processes: means and cross-covariances as functions of names."""

    def __init__(self, w, M, K):
        self.w, self.M, self.K = w, M, K

    def conditioned(self, f, x, N, y, iC=None):
        """The law given that `f(x)` plus noise with variance `N` has values `y`."""
        w = self.w
        iC = w.inv(self.K(f, f, x, x) + N) if iC is None else iC

        def M(a, u):
            return self.M(a, u) + self.K(a, f, u, x) @ iC @ (y - self.M(f, x))

        def K(a, b, u, v):
            return self.K(a, b, u, v) - self.K(a, f, u, x) @ iC @ self.K(f, b, x, v)

        return Law(w, M, K)

    def combined(self, **laws):
        """Add linear combinations (a mapping from names to coefficients)."""

        def names(a):
            return laws.get(a, {a: 1})

        def M(a, u):
            parts = [self.M(n, u) * c for n, c in names(a).items()]
            return sum(parts[1:], parts[0])

        def K(a, b, u, v):
            parts = [self.K(n, m, u, v) * (c * e) for n, c in names(a).items() for m, e in names(b).items()]
            return sum(parts[1:], parts[0])

        return Law(self.w, M, K)


def with_twin(law, twin, name):
    """Add a process that is independent of the others, but has the mean and kernel of one of those."""

    def M(a, u):
        return law.M(name if a == twin else a, u)

    def K(a, b, u, v):
        if a == b == twin:
            return law.K(name, name, u, v)
        if twin in (a, b):
            return law.K(name, name, u, v) * 0
        return law.K(a, b, u, v)

    return Law(law.w, M, K)


def with_independent(law, name, mean, kernel):
    """Add an independent process with the given mean and kernel, which are functions of inputs."""

    def M(a, u):
        return mean(u) if a == name else law.M(a, u)

    def K(a, b, u, v):
        if name in (a, b):
            return kernel(u, v) * (1 if a == b else 0)
        return law.K(a, b, u, v)

    return Law(law.w, M, K)


def structured(w, m, law, ps):
    """Add processes of which the variances are matrices with a structure: a constant `c` and a linear function `l`."""
    from mlkernels import Linear, OneKernel
    from stheno import GP

    n = lambda x: w.col(x).shape[-2]
    ps["c"] = GP(1, 2 * OneKernel(), measure=m)
    ps["l"] = GP(Linear(), measure=m)
    law = with_independent(law, "c", lambda u: w.ones(n(u), 1), lambda u, v: w.ones(n(u), n(v)) * 2)
    return with_independent(law, "l", lambda u: w.zeros(n(u), 1), lambda u, v: w.col(u) @ w.T(w.col(v)))


def different_sizes(w, *names):
    """Sizes of which it is known whether they are equal, as the code asks for structured matrices. All cases are covered."""
    sizes = []
    for name in names:
        size = w.dim(name)
        same = w.choose(f"{name} is", "new", *range(len(set(map(id, sizes))))) if sizes else "new"
        unique = list({id(s): s for s in sizes}.values())
        if same == "new":
            for other in unique:
                w.assume(size != other)
            sizes.append(size)
        else:
            sizes.append(unique[same])
    return sizes


def prior_law(w, prefix=""):
    return Law(w, lambda a, u: w.M(prefix + a, u), lambda a, b, u, v: w.K(prefix + a, prefix + b, u, v))


def check(w, label, m, ps, law, u, v, u2, pairs=None):
    """The processes `ps` (a mapping from names) follow `law` under `m`."""
    pairs = pairs or PAIRS
    for a in dict.fromkeys(a for a, _ in pairs):
        w.eq(f"{label}: mean of {a}", m.means[ps[a]](u), law.M(a, u))
    for a, b in pairs:
        k = m.kernels[ps[a], ps[b]]
        w.eq(f"{label}: covariance of {a}, {b}", k(u, v), law.K(a, b, u, v))
        w.eq(f"{label}: covariance of {a}, {b} at equal inputs", k(u), law.K(a, b, u, u))
        w.eq(f"{label}: element-wise covariance of {a}, {b}", k.elwise(u, u2), w.diag(law.K(a, b, u, u2)))
        w.eq(f"{label}: variances of {a}, {b}", k.elwise(u), w.diag(law.K(a, b, u, u)))


def shape(w, d):
    """The dimensionality of inputs and the shape of a batch of those."""
    return (2, (w.dim("b"),)) if d == "batch" else (d, ())


def points(w, d=None):
    n, l = w.dim("n"), w.dim("l")
    d = shape(w, d)
    return w.input("u", n, *d), w.input("v", l, *d), w.input("u2", n, *d)


def values(w, k, name="y", batch=()):
    """Observed values: a column, a column for every element of a batch, or a vector."""
    kind = w.choose(name + " is", "column", "vector", *(("columns",) if batch else ()))
    if kind != "vector":
        y = w.mat(name, k, 1, batch if kind == "columns" else ())
        return y, y
    y = w.vec(name, k)
    return y, w.col(y)


def scene(w, independent=()):
    """A measure, which can be a posterior, with processes of an arbitrary joint law."""
    m, p, q, f = w.law(*NAMES, independent=independent)
    ps = dict(p=p, q=q, f=f)
    if w.choose("measure", "prior", "posterior") == "posterior":
        post = w.posterior(m, "P.")
        return post, ps, prior_law(w, "P."), m
    return m, ps, prior_law(w), None


@contract("one observation: every pair of processes", *FUNCTIONS)
def one(w):
    from stheno import Obs

    # Processes can be independent or deterministic.
    m, ps, law, _ = scene(w, w.choose("independent", (), ("pf", "pq"), ("pp", "pq", "pf")))
    touch(w, m, ps.values())
    d = w.choose("d", None, 2, "batch")
    u, v, u2 = points(w, d)
    d, b = shape(w, d)
    k = w.dim("k", ("many", "one"))
    x = w.input("x", k, d, b)
    if b and w.choose("noises", "one", "a batch") == "a batch":
        noise = N = w.pd("N", k, b)
    elif b:
        noise, N = make_noise(w, k, kinds=("none", "scalar", "matrix"))
    else:
        noise, N = make_noise(w, k)
    y, Y = values(w, k, batch=b)
    f = m(ps["f"]) if w.choose("observed", "process", "copy") == "copy" else ps["f"]
    post = m | (f(x, noise), y) if f.measure is m else m | (f(x, noise), y)
    check(w, "posterior", post, ps, law.conditioned("f", x, N, Y), u, v, u2)
    check(w, "prior", m, ps, law, u, v, u2, FEW)


@contract("equal inputs", *FUNCTIONS)
def equal_inputs(w):
    """The posterior evaluated at the observed inputs."""
    m, ps, law, _ = scene(w)
    k = w.dim("k", ("many", "one"))
    d, b = shape(w, w.choose("d", None, 2, "batch"))
    x = w.input("x", k, d, b)
    noise, N = make_noise(w, k, kinds=("none", "scalar", "matrix")) if b else make_noise(w, k)
    y, Y = values(w, k, batch=b)
    post = m | (ps["f"](x, noise), y)
    new = law.conditioned("f", x, N, Y)
    check(w, "posterior", post, ps, new, x, x, x)
    # Through distributions of the processes themselves.
    p = post(ps["p"])
    w.eq("mean of distribution", p(x).mean, new.M("p", x))
    w.eq("variance of distribution", p(x).var, new.K("p", "p", x, x))
    w.eq("variance diagonal of distribution", w.as_column(p(x).var_diag), w.diag(new.K("p", "p", x, x)))


@contract(
    "call styles",
    *FUNCTIONS,
    "stheno.model.measure:Measure.__or__",
    "stheno.model.gp:GP.condition",
    "stheno.model.gp:GP.__or__",
    split=4,
)
def styles(w):
    from matrix import Dense
    from stheno import Obs, Observations

    m, p, q, f = w.law(*NAMES)
    ps = dict(p=p, q=q, f=f)
    law = prior_law(w)
    u, v, u2 = points(w)
    k = w.dim("k")
    x = w.input("x", k)
    noise, N = make_noise(w, k, kinds=("none", "scalar", "matrix"))
    y, Y = values(w, k)
    # Observations, unlike other places, also take values as a structured matrix.
    structured = Y is y and w.choose("column is", "array", "structured") == "structured"
    y = Dense(y) if structured else y
    d = f(x, noise)
    new = law.conditioned("f", x, N, Y)
    on = w.choose("on", "measure", "process")
    args = {
        "distribution and values": (d, y),
        "pair": ((d, y),),
        "observations": (Obs(d, y),),
        "observations of pair": (Observations((d, y)),),
    }
    how = w.choose("arguments", *(["pair", "observations"] if structured else args))
    args = args[how]
    if on == "measure":
        post = m.condition(*args) if w.choose("style", "condition", "|") == "condition" else m | (args if len(args) > 1 else args[0])
        check(w, "posterior", post, ps, new, u, v, u2, [("p", "q"), ("f", "p"), ("q", "q")])
    else:
        g = q.condition(*args) if w.choose("style", "condition", "|") == "condition" else q | (args if len(args) > 1 else args[0])
        w.eq("posterior process: mean", g.mean(u), new.M("q", u))
        w.eq("posterior process: kernel", g.kernel(u, v), new.K("q", "q", u, v))
        w.eq("posterior process: variances", g.kernel.elwise(u), w.diag(new.K("q", "q", u, u)))
        post = g.measure
        w.true("posterior process: other measure", post is not m)
        for a, o in ps.items():
            w.eq(f"posterior process: cross-covariance with {a}", post.kernels[g, o](u, v), new.K("q", a, u, v))
            w.eq(f"posterior process: cross-covariance with {a}, right", post.kernels[o, g](u, v), new.K(a, "q", u, v))
    check(w, "prior", m, ps, law, u, v, u2, FEW)


@contract(
    "several observations",
    *FUNCTIONS,
    "stheno.model.observations:combine",
    "stheno.mo.kernel:pairwise",
    "stheno.mo.mean:MultiOutputMean.__call__",
    split=5,
)
def several(w):
    """Several pairs: the same as conditioning on the stack of the processes."""
    from stheno import Obs

    m, ps, law, prior = scene(w)
    inputs = w.choose("d", None, "batch")
    u, v, u2 = points(w, inputs)
    inputs = shape(w, inputs)
    k1, k2 = w.dim("k1", ("many", "one")), w.dim("k2")
    a, b = w.choose("observed", ("f", "q"), ("f", "f"), ("q", "p"))
    x1, x2 = w.input("x1", k1, *inputs), w.input("x2", k2, *inputs)
    kind1, kind2 = w.choose(
        "noises", ("none", "matrix"), ("vector", "scalar"), *w.more(("matrix", "vector"), ("scalar", "diagonal"), ("dense", "none"))
    )
    noise1, N1 = make_noise(w, k1, "noise1", (kind1,))
    noise2, N2 = make_noise(w, k2, "noise2", (kind2,))
    y1 = Y1 = w.mat("y1", k1, 1, inputs[1])
    y2 = Y2 = w.mat("y2", k2, 1, inputs[1])
    d1, d2 = ps[a](x1, noise1), ps[b](x2, noise2)
    how = w.choose("how", "condition", "|", "observations")
    if how == "condition":
        post = m.condition((d1, y1), (d2, y2))
    elif how == "|":
        post = m | ((d1, y1), (d2, y2))
    else:
        post = m | Obs((d1, y1), (d2, y2))
    # The law of the stack of the observed processes.
    X = ((a, x1), (b, x2))
    C = w.blocks([[law.K(s, t, z, z_) for t, z_ in X] for s, z in X])
    C = C + w.blocks([[N1, w.zeros(k1, k2)], [w.zeros(k2, k1), N2]])
    iC = w.inv(C)
    r = w.stack(Y1, Y2) - w.stack(law.M(a, x1), law.M(b, x2))

    def to(s, z):
        return w.blocks([[law.K(s, t, z, z_) for t, z_ in X]])

    new = Law(
        w,
        lambda s, z: law.M(s, z) + to(s, z) @ iC @ r,
        lambda s, t, z, z_: law.K(s, t, z, z_) - to(s, z) @ iC @ w.T(to(t, z_)),
    )
    check(w, "posterior", post, ps, new, u, v, u2, [("p", "q"), ("f", "p"), ("f", "f")])
    check(w, "measure itself", m, ps, law, u, v, u2, FEW)


@contract("three observations", *FUNCTIONS, "stheno.model.observations:combine", split=2)
def three(w):
    m, p, q, f = w.law(*NAMES)
    ps = dict(p=p, q=q, f=f)
    law = prior_law(w)
    u, v, u2 = points(w)
    names = w.choose("observed", ("f", "q", "p"), ("p", "p", "q"))
    pairs, X, N, Y = [], [], [], []
    for i, a in enumerate(names):
        k = w.dim(f"k{i}")
        x = w.input(f"x{i}", k)
        noise, n = make_noise(w, k, f"noise{i}", (("scalar",), ("vector",), ("matrix",))[i])
        y = w.column(f"y{i}", k)
        pairs.append((ps[a](x, noise), y))
        X.append((a, x))
        N.append(n)
        Y.append(y)
    post = m.condition(*pairs)
    C = w.blocks(
        [
            [law.K(s, t, z, z_) + (N[i] if i == j else w.zeros(N[i].shape[0], N[j].shape[0])) for j, (t, z_) in enumerate(X)]
            for i, (s, z) in enumerate(X)
        ]
    )
    r = w.stack(*Y) - w.stack(*[law.M(s, z) for s, z in X])

    def to(s, z):
        return w.blocks([[law.K(s, t, z, z_) for t, z_ in X]])

    new = Law(
        w,
        lambda s, z: law.M(s, z) + to(s, z) @ w.inv(C) @ r,
        lambda s, t, z, z_: law.K(s, t, z, z_) - to(s, z) @ w.inv(C) @ w.T(to(t, z_)),
    )
    check(w, "posterior", post, ps, new, u, v, u2, [("p", "q"), ("q", "f")])


@contract("no observations", *FUNCTIONS)
def empty(w):
    """Without observations, the posterior is the prior."""
    m, ps, law, _ = scene(w)
    d = w.choose("d", None, 2)
    u, v, u2 = points(w, d)
    how = w.choose("how", "one", "two", "all missing")
    x = w.input("x", 0, d)
    noise = {"none": None, "scalar": w.num("s", positive=True), "vector": w.vec("vv", 0)}[
        w.choose("noise", "none", "scalar", "vector")
    ]
    y = w.column("y", 0) if w.choose("y is", "column", "vector") == "column" else w.vec("y", 0)
    if how == "one":
        post = m | (ps["f"](x, noise), y)
    elif how == "two":
        post = m | ((ps["f"](x, noise), y), (ps["q"](x), y))
    else:
        k = w.dim("k")
        from lab import B

        y = w.column("z", k)
        mask = w.mask("available", k)
        w.assume(w.selection(mask).shape[0] == 0)
        post = m | (ps["f"](w.input("xx", k, d), noise if not hasattr(noise, "shape") or len(noise.shape) == 0 else None), w.missing(y, mask))
    check(w, "posterior", post, ps, law, u, v, u2)
    check(w, "prior", m, ps, law, u, v, u2, FEW)


@contract("derived processes", *FUNCTIONS, split=4)
def derived(w):
    """Processes computed before or after conditioning follow the law of their operands."""
    m, p, q, f = w.law(*NAMES)
    c = w.num("c")
    law = prior_law(w).combined(s={"p": 2, "f": 1}, t={"p": c, "q": -1})
    when_s = w.choose("s computed", "before", "after")
    when_t = w.choose("t computed", "before", "after")
    d = w.choose("d", None, "batch")
    u, v, u2 = points(w, d)
    d, b = shape(w, d)
    k = w.dim("k")
    x = w.input("x", k, d, b)
    noise, N = make_noise(w, k, kinds=("scalar", "matrix"))
    y = w.mat("y", k, 1, b)
    s = t = None
    if when_s == "before":
        s = 2 * p + f
    if when_t == "before":
        t = c * p - q
    observed = w.choose("observed", "f", "s", "t")
    w.assume(observed == "f" or (observed == "s" and s is not None) or (observed == "t" and t is not None))
    post = m | (dict(f=f, s=s, t=t)[observed](x, noise), y)
    if s is None:
        s = 2 * p + f
    if t is None:
        t = c * p - q
    ps = dict(p=p, q=q, f=f, s=s, t=t)
    new = law.conditioned(observed, x, N, y)
    check(w, "posterior", post, ps, new, u, v, u2, [("s", "t"), ("t", "s"), ("s", "s"), ("s", "q"), ("p", "t"), ("f", "s")])
    check(w, "prior", m, ps, law, u, v, u2, [("s", "t"), ("p", "s"), ("t", "t")])


@contract("posterior of posterior", *FUNCTIONS)
def chained(w):
    """Conditioning a posterior conditions the law of that posterior."""
    m, p, q, f = w.law(*NAMES)
    ps = dict(p=p, q=q, f=f)
    law = prior_law(w)
    u, v, u2 = points(w)
    k1, k2 = w.dim("k1", ("many", "one")), w.dim("k2", ("many", "one"))
    x1, x2 = w.input("x1", k1), w.input("x2", k2)
    noise1, N1 = make_noise(w, k1, "noise1", ("scalar", "matrix"))
    noise2, N2 = make_noise(w, k2, "noise2", ("scalar", "matrix"))
    y1, y2 = w.column("y1", k1), w.column("y2", k2)
    a, b = w.choose("observed", ("f", "f"), ("f", "q"), ("q", "f"))
    post1 = m | (ps[a](x1, noise1), y1)
    # The second distribution can be of the prior's process or of the posterior's process.
    g = post1(ps[b]) if w.choose("second process", "copy", "original") == "copy" else ps[b]
    post2 = post1 | (g(x2, noise2), y2)
    new1 = law.conditioned(a, x1, N1, y1)
    new2 = new1.conditioned(b, x2, N2, y2)
    check(w, "second", post2, ps, new2, u, v, u2, FEW)
    check(w, "first", post1, ps, new1, u, v, u2, FEW)
    check(w, "prior", m, ps, law, u, v, u2, FEW)


@contract("one observations object, several measures", *FUNCTIONS, split=5)
def reuse(w):
    """An observations object conditions several measures, in any order and any number of times."""
    from stheno import Obs

    m, p, q, f = w.law(*NAMES)
    ps = dict(p=p, q=q, f=f)
    m1, m2 = w.posterior(m, "A."), w.posterior(m, "B.")
    measures = {"": m, "A.": m1, "B.": m2}
    u, v, u2 = points(w)
    k = w.dim("k")
    several = w.choose("observations", "one", "two")
    x = w.input("x", k)
    noise, N = make_noise(w, k, kinds=("scalar", *w.more("matrix")))
    y = w.column("y", k)
    if several == "one":
        obs = Obs(f(x, noise), y)
    else:
        l = w.dim("l2")
        x_ = w.input("x_", l)
        y_ = w.column("y_", l)
        obs = Obs((f(x, noise), y), (q(x_, 0.5), y_))
    first = w.choose("first", *measures)
    second = w.choose("second", *measures)
    done = []
    for i, P in enumerate((first, second, "A.", "B.", "")):
        done.append((P, measures[P] | obs))
        if w.choose(f"looked up {i}", True, False) if i < 2 else False:
            done[-1][1].kernels[p, q](u, v)
            done[-1][1].means[p](u)
    for i, (P, post) in enumerate(done):
        law = prior_law(w, P)
        if several == "one":
            new = law.conditioned("f", x, N, y)
        else:
            C = w.blocks(
                [
                    [law.K("f", "f", x, x) + N, law.K("f", "q", x, x_)],
                    [law.K("q", "f", x_, x), law.K("q", "q", x_, x_) + w.eye(l) * 0.5],
                ]
            )
            r = w.stack(y, y_) - w.stack(law.M("f", x), law.M("q", x_))
            to = lambda s, z: w.blocks([[law.K(s, "f", z, x), law.K(s, "q", z, x_)]])
            new = Law(
                w,
                lambda s, z: law.M(s, z) + to(s, z) @ w.inv(C) @ r,
                lambda s, t, z, z_: law.K(s, t, z, z_) - to(s, z) @ w.inv(C) @ w.T(to(t, z_)),
            )
        check(w, f"{i}: posterior of {P or 'prior'}", post, ps, new, u, v, u2, [("p", "q")])


@contract("later processes do not change a posterior", *FUNCTIONS, "stheno.model.measure:Measure.condition")
def later(w):
    """What is added to the prior or the posterior after conditioning leaves the posterior's law as it was."""
    from stheno import GP

    m, p, q, f = w.law(*NAMES)
    ps = dict(p=p, q=q, f=f)
    law = prior_law(w)
    AtomKernel, AtomMean = w.classes()
    u, v, u2 = points(w)
    k = w.dim("k")
    x = w.input("x", k)
    noise, N = make_noise(w, k, kinds=("scalar", "matrix"))
    y = w.column("y", k)
    post = m | (f(x, noise), y)
    new = law.conditioned("f", x, N, y)
    kind = w.choose("added", "independent to prior", "sum", "independent to posterior", "copy", "conditioned again")
    if kind == "independent to prior":
        GP(AtomMean(w, "n"), AtomKernel(w, "n", "n"), measure=m)
    elif kind == "sum":
        p + q
    elif kind == "independent to posterior":
        s = GP(AtomMean(w, "n"), AtomKernel(w, "n", "n"), measure=post)
        w.eq("independent: mean", post.means[s](u), w.M("n", u))
        w.eq("independent: covariance", post.kernels[s, p](u, v), w.zeros(u.shape[0], v.shape[0]))
        t = post(p) + s
        w.eq("sum with independent: covariance", post.kernels[t](u, v), new.K("p", "p", u, v) + w.K("n", "n", u, v))
        w.eq("sum with independent: cross-covariance", post.kernels[t, q](u, v), new.K("p", "q", u, v))
    elif kind == "copy":
        s = post(p)
        w.eq("copy: cross-covariance", post.kernels[s, q](u, v), new.K("p", "q", u, v))
    else:
        m | (q(x, noise), y)
        post | (q(x, noise), y)
    check(w, "posterior", post, ps, new, u, v, u2)
    check(w, "prior", m, ps, law, u, v, u2, FEW)


@contract("shapes of values", "stheno.model.observations:AbstractObservations.__init__")
def shapes(w):
    from stheno import Obs

    m, p, q, f = w.law(*NAMES)
    k = w.dim("k")
    x = w.input("x", k)
    y = w.mat("y", k, 2)
    w.raises("two columns", ValueError, lambda: Obs(f(x), y))
    w.raises("row", ValueError, lambda: Obs(f(x), w.T(w.column("z", k))))
    w.raises("condition", ValueError, lambda: m | (f(x), y))


@contract("processes that share means and kernels", *FUNCTIONS)
def shared_objects(w):
    """What matters is which process was observed, not which mean and kernel."""
    from stheno import GP

    m, p, f = w.law("p", "f")
    t = GP(m.means[p], m.kernels[p], measure=m)
    # A copy has the same objects, too, but is the same process.
    ps = dict(p=m(p) if w.choose("p is", "process", "copy") == "copy" else p, t=t, f=f)
    law = with_twin(prior_law(w), "t", "p")
    u, v, u2 = points(w)
    k = w.dim("k")
    x = w.input("x", k)
    a = w.choose("observed", "p", "t", "f")
    noise, N = make_noise(w, k, kinds=("scalar", "matrix"))
    y = w.column("y", k)
    pairs = [("p", "t"), ("t", "p"), ("p", "p"), ("t", "t"), ("t", "f"), ("f", "p")]
    post = m | (ps[a](x, noise), y)
    check(w, "posterior", post, ps, law.conditioned(a, x, N, y), u, v, u2, pairs)
    check(w, "prior", m, ps, law, u, v, u2, pairs)
    b = w.choose("observed next", "p", "t")
    x, N, y = w.input("x'", k), w.pd("N'", k), w.column("y'", k)
    post = m | (ps[b](x, N), y)
    check(w, "another posterior", post, ps, law.conditioned(b, x, N, y), u, v, u2, pairs)


@contract("kernels with structure", *FUNCTIONS)
def structures(w):
    """The observed process, or others, have variances that are of low rank."""
    m, p = w.law("p")
    ps = dict(p=p)
    law = structured(w, m, prior_law(w), ps)
    ps["s"] = ps["p"] + ps["c"] - ps["l"]
    law = law.combined(s={"p": 1, "c": 1, "l": -1})
    ps["t"] = ps["c"] + ps["l"]
    law = law.combined(t={"c": 1, "l": 1})
    d = w.choose("d", None, 2)
    n, l, k = different_sizes(w, "n", "l", "k")
    u, v, u2, x = w.input("u", n, d), w.input("v", l, d), w.input("u2", n, d), w.input("x", k, d)
    a = w.choose("observed", "c", "l", "s", "p")
    noise, N = make_noise(w, k, kinds=("scalar", "vector", "matrix"))
    y = w.column("y", k)
    iC = None
    # The code computes with the factors if the noise has structure.
    if noise is N:
        pass
    elif a == "c":
        iC = w.lowrank_inv(N, w.ones(k, 1), w.eye(1) * 0.5)
    elif a == "l":
        iC = w.lowrank_inv(N, w.col(x), w.eye(w.col(x).shape[-1]))
    post = m | (ps[a](x, noise), y)
    pairs = [("p", "s"), ("s", "p"), ("c", "c"), ("c", "l"), ("s", "t"), ("t", "t")]
    check(w, "posterior", post, ps, law.conditioned(a, x, N, y, iC), u, v, u2, pairs)
    check(w, "prior", m, ps, law, u, v, u2, pairs)
