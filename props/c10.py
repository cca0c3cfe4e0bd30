"""C10: joint operations on several processes use one measure and keep the order of the blocks."""
from pyvc.world import contract

from .c08 import prior_law
from .c12 import make_noise

SAMPLE = ("stheno.model.measure:Measure.sample", "stheno.model.observations:combine", "stheno.random:Normal.sample")
LOGPDF = ("stheno.model.measure:Measure.logpdf", "stheno.model.observations:combine", "stheno.random:Normal.logpdf")
CALL = ("stheno.model.measure:Measure.__call__", "stheno.model.observations:combine", "stheno.model.gp:cross")


class Joint:
    """Evaluations of processes, and the law of all of them together."""

    def __init__(self, w, ps, names, ks, kinds, batch=()):
        self.w, self.names, self.ks, self.batch = w, names, ks, batch
        d = 2 if batch else None
        self.xs = [w.input(f"x{i}", k, d, batch) for i, k in enumerate(ks)]
        noises = [make_noise(w, k, f"noise{i}", (kind,)) for i, (k, kind) in enumerate(zip(ks, kinds))]
        self.fdds = [ps[a](x, noise) for a, x, (noise, _) in zip(names, self.xs, noises)]
        self.Ns = [N for _, N in noises]

    def mean(self, law):
        return self.w.stack(*[law.M(a, x) for a, x in zip(self.names, self.xs)])

    def var(self, law):
        w, names, xs = self.w, self.names, self.xs
        return w.blocks(
            [
                [law.K(a, b, x, z) + (self.Ns[i] if i == j else w.zeros(self.ks[i], self.ks[j])) for j, (b, z) in enumerate(zip(names, xs))]
                for i, (a, x) in enumerate(zip(names, xs))
            ]
        )

    def values(self):
        """Values of all, as given and as a column."""
        w = self.w
        as_column = [w.mat(f"y{i}", k, 1, self.batch) for i, k in enumerate(self.ks)]
        return as_column, w.stack(*as_column)

    def density(self, law, y):
        w = self.w
        r, C = y - self.mean(law), self.var(law)
        q = w.T(r) @ w.inv(C) @ r
        logdet = w.logdet_batch(C) if self.batch else w.logdet(C)
        return (w.scalar(q) + logdet + w.number(y.shape[-2]) * w.log2pi()) * -0.5


def scene(w):
    """Processes, and a measure with the law of the processes under it."""
    m, p, q, f = w.law("p", "q", "f")
    ps = dict(p=p, q=q, f=f)
    which = w.choose("measure", "prior", "posterior", "posterior while a different one exists")
    if which == "prior":
        w.posterior(m, "Q.")
        return m, ps, prior_law(w)
    post = w.posterior(m, "P.")
    if which != "posterior":
        w.posterior(m, "Q.")
    return post, ps, prior_law(w, "P.")


def joint(w, ps, batch=()):
    """One to three evaluations, repeated processes included."""
    names, kinds, modes = w.choose(
        "evaluations",
        (("p",), ("vector",), ("many",)),
        (("p",), ("none",), ("one",)),
        (("p", "q"), ("scalar", "none"), ("many", "many")),
        (("f", "p"), ("none", "matrix"), ("one", "many")),
        (("p", "p"), ("vector", "scalar"), ("many", "many")),
        (("q", "f", "p"), ("scalar", "vector", "none"), ("many", "one", "many")),
        (("p", "q", "p"), ("none", "matrix", "scalar"), ("many", "many", "many")),
    )
    return Joint(w, ps, names, [w.dim(f"k{i}", (mode,)) for i, mode in enumerate(modes)], kinds, batch)


@contract("log-densities", *LOGPDF, *CALL)
def logpdf(w):
    from stheno import Obs

    m, ps, law = scene(w)
    j = joint(w, ps)
    ys, y = j.values()
    how = w.choose("how", "pairs", "lists", "observations", "vectors", "combined", "twice")
    if how == "lists":
        # With lists, dispatch does not depend on the types of the elements.
        pairs = [(d, v) for d, v in zip(j.fdds, ys)]
        got = m.logpdf(*pairs)
    elif how == "vectors":
        ys = [w.vec(f"y{i}", k) for i, k in enumerate(j.ks)]
        y = w.stack(*[w.col(v) for v in ys])
        got = m.logpdf(*zip(j.fdds, ys))
    elif how == "observations":
        got = m.logpdf(Obs(*zip(j.fdds, ys)))
    elif how == "combined":
        from stheno import combine

        d, v = combine(*zip(j.fdds, ys))
        w.eq("values", v, y)
        got = m.logpdf(d, v)
    else:
        if how == "twice":
            m.logpdf(*zip(reversed(j.fdds), reversed(ys)))
        got = m.logpdf(*zip(j.fdds, ys))
    w.eq("log-density", got, j.density(law, y))


@contract("joint distributions", *CALL)
def distribution(w):
    from stheno import combine

    m, ps, law = scene(w)
    j = joint(w, ps)
    how = w.choose("how", "measure of the combination", "combination of the measure's", "one by one")
    if how == "one by one":
        for d, a, x, N in zip(j.fdds, j.names, j.xs, j.Ns):
            w.eq("mean", m(d).mean, law.M(a, x))
            w.eq("variance", m(d).var, law.K(a, a, x, x) + N)
            w.eq("given noise", m(d).noise, N)
        return
    if how == "measure of the combination":
        d = m(combine(*j.fdds))
    else:
        d = combine(*[m(d) for d in j.fdds])
    w.eq("mean", d.mean, j.mean(law))
    w.eq("variance", d.var, j.var(law))
    w.eq("variances", w.col(d.var_diag), w.diag(j.var(law)))
    w.true("size", d.dim == sum(j.ks[1:], j.ks[0]))


@contract("log-densities and joint distributions of batches", *LOGPDF, *CALL)
def batches(w):
    from stheno import Obs, combine

    m, ps, law = scene(w)
    j = joint(w, ps, (w.dim("b"),))
    how = w.choose("how", "pairs", "observations", "distribution", "own log-density")
    if how == "distribution":
        d = m(combine(*j.fdds))
        w.eq("mean", d.mean, j.mean(law))
        w.eq("variance", d.var, j.var(law))
        w.eq("variances", w.as_column(d.var_diag), w.diag(j.var(law)))
        return
    ys, y = j.values()
    if how == "own log-density":
        w.eq("log-density", m(combine(*j.fdds)).logpdf(y), j.density(law, y))
        return
    got = m.logpdf(*zip(j.fdds, ys)) if how == "pairs" else m.logpdf(Obs(*zip(j.fdds, ys)))
    w.eq("log-density", got, j.density(law, y))


@contract("samples of batches", *SAMPLE, *CALL, numeric_only=True)
def sample_batches(w):
    """The elements of a batch are independent."""
    m, ps, law = scene(w)
    b = w.dim("b")
    j = joint(w, ps, (b,))
    num = w.dim("number of samples", ("one", "many"))

    def f(state):
        r = m.sample(*(() if state is None else (state,)), num, *j.fdds)
        new, *samples = r if state is not None else (None, *(r if isinstance(r, (tuple, list)) else (r,)))
        w.true("number of samples", len(samples) == len(j.fdds))
        for s, k in zip(samples, j.ks):
            w.true("shape", tuple(s.shape) == (b, k, num))
        x = w.unbatched(w.stack(*samples))
        return x if state is None else (new, x)

    mean, var = w.draws("draws", f, num, w.choose("how", "state", "global"))
    w.eq("mean", mean, w.unbatched(j.mean(law)))
    w.eq("variance", var, w.batch_diagonal(j.var(law)))


@contract("the distribution of the stacked processes is that in the measure of the processes", *CALL)
def constructed(w):
    """Without a measure: the law is the one with which the processes were constructed."""
    from stheno import combine

    _, ps, _ = scene(w)
    law = prior_law(w)
    j = joint(w, ps)
    d = combine(*j.fdds)
    w.eq("mean", d.mean, j.mean(law))
    w.eq("variance", d.var, j.var(law))


@contract("samples", *SAMPLE, *CALL)
def sample(w):
    m, ps, law = scene(w)
    j = joint(w, ps)
    num = w.dim("number of samples", ("one", "many"))
    how = w.choose("how", "state", "global")
    implied = w.choose("number is implied", True, False) if num == 1 else False

    def f(state):
        args = (() if state is None else (state,)) + (() if implied else (num,)) + tuple(j.fdds)
        r = m.sample(*args)
        if state is not None:
            new, *samples = r
        else:
            samples = r if isinstance(r, (tuple, list)) else (r,)
        w.true("number of samples", len(samples) == len(j.fdds))
        for s, k in zip(samples, j.ks):
            if state is not None:
                w.true("shape", len(s.shape) == 2 and s.shape[0] == k and s.shape[1] == num)
        x = w.stack(*[w.reshaped(s, k, num) for s, k in zip(samples, j.ks)])
        return x if state is None else (new, x)

    mean, var = w.draws("draws", f, num, how)
    w.eq("mean", mean, j.mean(law))
    w.eq("variance", var, j.var(law))


@contract("multi-output processes", *SAMPLE, *LOGPDF, *CALL)
def multi_output(w):
    """Distributions of multi-output processes consist of several blocks."""
    from stheno import cross

    m, ps, law = scene(w)
    c = cross(ps["q"], ps["p"])
    k0, k1 = w.dim("k0"), w.dim("k1", ("many", *w.more("one")))
    x0, x1 = w.input("x0", k0), w.input("x1", k1)
    first = w.choose("multi-output process first", True, False)
    X = [("q", x1), ("p", x1)]
    X = X + [("p", x0)] if first else [("p", x0)] + X
    fdds = [ps["p"](x0), c(x1)]
    ks = [k0, k1 * 2]
    if first:
        fdds, ks = fdds[::-1], ks[::-1]
    mean = w.stack(*[law.M(a, x) for a, x in X])
    var = w.blocks([[law.K(a, b, x, z) for b, z in X] for a, x in X])
    what = w.choose("what", "sample", "density")
    if what == "sample":

        def f(state):
            new, *samples = m.sample(state, 1, *fdds)
            for s, k in zip(samples, ks):
                w.true("shape", s.shape[0] == k and s.shape[1] == 1)
            return new, w.stack(*samples)

        mean_, var_ = w.draws("draws", f, 1)
        w.eq("mean", mean_, mean)
        w.eq("variance", var_, var)
    else:
        ys = [w.column(f"y{i}", k) for i, k in enumerate(ks)]
        y = w.stack(*ys)
        r = y - mean
        q = w.T(r) @ w.inv(var) @ r
        want = (w.scalar(q) + w.logdet(var) + w.number(y.shape[0]) * w.log2pi()) * -0.5
        w.eq("density", m.logpdf(*zip(fdds, ys)), want)
