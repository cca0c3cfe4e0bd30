"""C03: a measure is one coherent joint law that constructions only extend."""
from pyvc.world import contract

from .common import DETERMINISTIC, inputs, touch


def scene(w, posteriors=True):
    """A measure or a posterior of it, with processes of an arbitrary joint law."""
    from stheno import Measure

    zero = w.choose("zero means", (), ("p",))
    m, p, q = w.law("p", "q", zero_mean=zero, independent=w.choose("independent", (), ("pq",), DETERMINISTIC))
    P = ""
    if posteriors and w.choose("measure", "prior", "posterior") == "posterior":
        m, P = w.posterior(m, "P."), "P."
    touch(w, m, [p, q])
    return m, p, q, P


def unchanged(w, m, p, q, P, x, y, x2):
    """The law of what was there is as it was."""
    ps = (("p", p), ("q", q))
    for a, pa in ps:
        w.eq(f"mean of {a} unchanged", m.means[pa](x), w.M(P + a, x))
        for b, pb in ps:
            k = m.kernels[pa, pb]
            w.eq(f"covariance of {a}, {b} unchanged", k(x, y), w.K(P + a, P + b, x, y))
            w.eq(f"element-wise covariance of {a}, {b} unchanged", k.elwise(x, x2), w.diag(w.K(P + a, P + b, x, x2)))


def symmetric(w, label, m, s, t, x, y):
    """Exchanging processes and inputs transposes."""
    w.eq(f"{label} symmetric", m.kernels[s, t](x, y), w.T(m.kernels[t, s](y, x)))


def extend(w, m, p, q):
    """A construction.

    Returns:
        object: New process.
    """
    from stheno import GP, cross

    c = w.num("c")
    f = w.fn("f")
    AtomKernel, AtomMean = w.classes()
    return {
        "independent": lambda: GP(AtomMean(w, "n"), AtomKernel(w, "n", "n"), measure=m),
        "custom": lambda: m.add_gp(
            AtomMean(w, "n"), AtomKernel(w, "n", "n"), lambda j: m.kernels[p, j] * 2, lambda i: m.kernels[i, p] * 2
        ),
        "copy": lambda: m(p),
        "sum": lambda: p + q,
        "constant": lambda: p + c,
        "scaled": lambda: p * c,
        "modulated": lambda: f * p,
        "product": lambda: p * q,
        "square": lambda: p * p,
        "shift": lambda: p.shift(c),
        "stretch": lambda: p.stretch(w.num("s", positive=True)),
        "transform": lambda: p.transform(w.fn("t", 1)),
        "select": lambda: p.select(0),
        "cross": lambda: cross(p, q),
        "chain": lambda: (f * p.shift(c) + q) * 2,
    }


KINDS = (
    "independent",
    "custom",
    "copy",
    "sum",
    "constant",
    "scaled",
    "modulated",
    "product",
    "square",
    "shift",
    "stretch",
    "transform",
    "select",
    "cross",
    "chain",
)


@contract(
    "constructions only extend",
    "stheno.model.measure:Measure._update",
    "stheno.model.measure:Measure._add_p",
    "stheno.model.measure:Measure.add_gp",
    "stheno.model.measure:Measure.add_independent_gp",
    "stheno.lazy:LazyMatrix.add_left_rule",
    "stheno.lazy:LazyMatrix.add_right_rule",
    "stheno.lazy:LazyMatrix._build",
)
def only_extend(w):
    m, p, q, P = scene(w)
    x, y, x2 = inputs(w, (2, "batch"))
    kind = w.choose("construction", *KINDS)
    s = extend(w, m, p, q)[kind]()
    if w.choose("look up new first", True, False):
        for t in (s, p, q):
            m.kernels[s, t], m.kernels[t, s]
    unchanged(w, m, p, q, P, x, y, x2)
    # The new process is part of the joint law.
    for name, t in (("itself", s), ("p", p), ("q", q)):
        symmetric(w, f"{kind} with {name}", m, s, t, x, y)


@contract("two constructions", "stheno.model.measure:Measure._update", "stheno.lazy:LazyMatrix._build", split=5)
def two(w):
    m, p, q, P = scene(w, posteriors=False)
    x, y, x2 = inputs(w, (2,))
    kinds = [k for k in KINDS if k != "cross"]
    k1 = w.choose("first", *kinds)
    s = extend(w, m, p, q)[k1]()
    k2 = w.choose("second", "independent", "custom", "copy", "sum", "modulated", "product", "shift", "cross")
    t = extend(w, m, s, q)[k2]()
    symmetric(w, f"{k2} of {k1} with {k1}", m, s, t, x, y)
    symmetric(w, f"{k2} of {k1} with p", m, t, p, x, y)
    symmetric(w, f"{k2} of {k1} with q", m, q, t, x, y)
    unchanged(w, m, p, q, P, x, y, x2)


@contract(
    "independent processes",
    "stheno.model.gp:GP.__init__",
    "stheno.model.measure:Measure.add_independent_gp",
)
def independent(w):
    from mlkernels import EQ, OneKernel, OneMean, ZeroKernel, ZeroMean
    from stheno import GP

    m, p, q, P = scene(w)
    x, y, x2 = inputs(w, (None,))
    n, l = x.shape[0], y.shape[0]
    s = p + 2 * q
    AtomKernel, AtomMean = w.classes()
    f, g = w.fn("f"), w.fn("g")
    F, G = (lambda z: w.apply("f", z)), (lambda z: w.apply("g", z))
    c = w.num("c")
    mean, M = {
        "none": (None, lambda z: w.zeros(z.shape[0], 1)),
        "number": (c, lambda z: w.ones(z.shape[0], 1) * c),
        "zero": (0, lambda z: w.zeros(z.shape[0], 1)),
        "one": (1, lambda z: w.ones(z.shape[0], 1)),
        "python": (-2.5, lambda z: w.ones(z.shape[0], 1) * -2.5),
        "function": (f, F),
        "mean": (AtomMean(w, "n"), lambda z: w.M("n", z)),
        "one mean": (OneMean(), lambda z: w.ones(z.shape[0], 1)),
    }[w.choose("mean", "none", "number", "zero", "one", "python", "function", "mean", "one mean")]
    v = w.num("v", positive=True)
    kernel, K = {
        "number": (v, lambda a, b: w.ones(a.shape[0], b.shape[0]) * v),
        "zero": (0, lambda a, b: w.zeros(a.shape[0], b.shape[0])),
        "one": (1, lambda a, b: w.ones(a.shape[0], b.shape[0])),
        "python": (2.5, lambda a, b: w.ones(a.shape[0], b.shape[0]) * 2.5),
        "function": (g, lambda a, b: G(a) @ w.T(G(b))),
        "kernel": (AtomKernel(w, "n", "n"), lambda a, b: w.K("n", "n", a, b)),
        "sum": (AtomKernel(w, "n", "n") + 2 * OneKernel(), lambda a, b: w.K("n", "n", a, b) + w.ones(a.shape[0], b.shape[0]) * 2),
        "zero kernel": (ZeroKernel(), lambda a, b: w.zeros(a.shape[0], b.shape[0])),
    }[w.choose("kernel", "number", "zero", "one", "python", "function", "kernel", "sum", "zero kernel")]
    args = (kernel,) if mean is None else (mean, kernel)
    how = w.choose("how", "keyword", "with")
    if how == "keyword":
        r = GP(*args, measure=m)
    else:
        with m:
            r = GP(*args)
    w.true("measure", r.measure is m)
    w.eq("mean", m.means[r](x), M(x))
    w.eq("own mean", r.mean(x), M(x))
    w.eq("covariance", m.kernels[r](x, y), K(x, y))
    w.eq("variances", m.kernels[r].elwise(x), w.diag(K(x, x)))
    w.eq("own kernel", r.kernel(x), K(x, x))
    for a, o in (("p", p), ("q", q), ("p + 2q", s)):
        w.eq(f"independent of {a}, left", m.kernels[r, o](x, y), w.zeros(n, l))
        w.eq(f"independent of {a}, right", m.kernels[o, r](x, y), w.zeros(n, l))
        w.eq(f"independent of {a}, element-wise", m.kernels[r, o].elwise(x, x2), w.zeros(n, 1))
    # Everything that comes later depends on it correctly.
    t = (m(p) if P else p) + r
    w.eq("later: mean", m.means[t](x), w.M(P + "p", x) + M(x))
    w.eq("later: covariance", m.kernels[t](x, y), w.K(P + "p", P + "p", x, y) + K(x, y))
    w.eq("later: cross-covariance", m.kernels[t, r](x, y), K(x, y))
    w.eq("later: cross-covariance, right", m.kernels[r, t](x, y), K(x, y))
    unchanged(w, m, p, q, P, x, y, x2)


@contract("several independent processes", "stheno.model.measure:Measure.add_independent_gp")
def several(w):
    from stheno import GP

    m, p, q, P = scene(w)
    x, y, x2 = inputs(w, (None,))
    AtomKernel, AtomMean = w.classes()
    rs = [GP(AtomMean(w, f"n{i}"), AtomKernel(w, f"n{i}", f"n{i}"), measure=m) for i in range(3)]
    for i, a in enumerate(rs):
        w.eq(f"mean {i}", m.means[a](x), w.M(f"n{i}", x))
        for j, b in enumerate(rs):
            want = w.K(f"n{i}", f"n{i}", x, y) if i == j else w.zeros(x.shape[0], y.shape[0])
            w.eq(f"covariance {i}, {j}", m.kernels[a, b](x, y), want)


@contract("custom processes", "stheno.model.measure:Measure.add_gp", "stheno.model.measure:Measure._update")
def custom(w):
    m, p, q, P = scene(w)
    x, y, x2 = inputs(w, (None,))
    AtomKernel, AtomMean = w.classes()
    names = {id(p): "p", id(q): "q"}
    asked = []

    def left(j):
        asked.append(j)
        return AtomKernel(w, "L", names[j])

    def right(i):
        asked.append(i)
        return AtomKernel(w, names[i], "R")

    both = w.choose("right rule", True, False)
    r = m.add_gp(AtomMean(w, "n"), AtomKernel(w, "n", "n"), left, *([right] if both else []))
    first = w.choose("looked up first", "left", "right")
    order = ("left", "right") if first == "left" else ("right", "left")
    w.true("measure", r.measure is m)
    for a, o in (("p", p), ("q", q)):
        for side in order:
            if side == "left":
                w.eq(f"left rule with {a}", m.kernels[r, o](x, y), w.K("L", a, x, y))
            else:
                want = w.K(a, "R", x, y) if both else w.K(a, "L", x, y)
                w.eq(f"right rule with {a}", m.kernels[o, r](x, y), want)
                w.eq(f"right rule with {a}, element-wise", m.kernels[o, r].elwise(x, x2), w.diag(w.K(a, "R" if both else "L", x, x2)))
    w.eq("mean", m.means[r](x), w.M("n", x))
    w.eq("kernel", m.kernels[r](x, y), w.K("n", "n", x, y))
    unchanged(w, m, p, q, P, x, y, x2)


@contract("Measure.__call__: copies", "stheno.model.measure:Measure.__call__(GP)")
def copies(w):
    zero = w.choose("zero means", (), ("p",))
    m, p, q = w.law("p", "q", zero_mean=zero, independent=w.choose("independent", (), ("pq",), DETERMINISTIC))
    prior = m
    P = ""
    which = w.choose("measure", "prior", "posterior", "posterior of posterior")
    if which != "prior":
        m, P = w.posterior(m, "P."), "P."
    if which == "posterior of posterior":
        m, P = w.posterior(m, "PP."), "PP."
    touch(w, m, [p, q])
    x, y, x2 = inputs(w, (None, 2))
    s = m(p)
    w.true("measure", s.measure is m)
    r = w.choose("copied", "p", "copy", "p + q")
    s, names = {
        "p": lambda: (s, ("p",)),
        "copy": lambda: (m(s), ("p",)),
        "p + q": lambda: (m(p + q) if P == "" else m(m(p) + m(q)), ("p", "q")),
    }[r]()
    w.true("measure of copy", s.measure is m)

    def K(a, b, u, v):
        t = w.zeros(u.shape[0], v.shape[0])
        for i in a:
            for j in b:
                t = t + w.K(P + i, P + j, u, v)
        return t

    mean = w.zeros(x.shape[0], 1)
    for a in names:
        mean = mean + w.M(P + a, x)
    w.eq("mean", s.mean(x), mean)
    w.eq("kernel", s.kernel(x, y), K(names, names, x, y))
    w.eq("variances", s.kernel.elwise(x), w.diag(K(names, names, x, x)))
    for a, o in (("p", p), ("q", q)):
        w.eq(f"cross-covariance with {a}, left", m.kernels[s, o](x, y), K(names, (a,), x, y))
        w.eq(f"cross-covariance with {a}, right", m.kernels[o, s](x, y), K((a,), names, x, y))
    t = m(q)
    w.eq("cross-covariance of copies", m.kernels[s, t](x, y), K(names, ("q",), x, y))
    w.eq("cross-covariance of copies, right", m.kernels[t, s](x, y), K(("q",), names, x, y))
    unchanged(w, m, p, q, P, x, y, x2)
    # The measure that it was copied from does not know it.
    if m is not prior:
        w.raises("prior does not know the copy", RuntimeError, lambda: prior.means[t])


@contract("Measure.__call__: distributions", "stheno.model.measure:Measure.__call__(FDD)")
def copies_fdd(w):
    from .c12 import make_noise

    m, p, q, P = scene(w)
    n = w.dim("n", ("many", "one"))
    x = w.input("x", n, w.choose("d", None, 2))
    noise, N = make_noise(w, n)
    d = m(p(x, noise))
    w.eq("mean", d.mean, w.M(P + "p", x))
    w.eq("var", d.var, w.K(P + "p", P + "p", x, x) + N)
    w.eq("var_diag", w.col(d.var_diag), w.diag(w.K(P + "p", P + "p", x, x) + N))
    w.true("process of the measure", d.p.measure is m)


@contract("unknown processes", "stheno.lazy:LazyVector._build", "stheno.lazy:LazyMatrix._build")
def unknown(w):
    from mlkernels import EQ
    from stheno import GP

    m, p, q, P = scene(w)
    x, y, x2 = inputs(w, (None,))
    other = GP(EQ())
    w.raises("mean", RuntimeError, lambda: m.means[other])
    w.raises("kernel", RuntimeError, lambda: m.kernels[other])
    w.raises("cross, left", RuntimeError, lambda: m.kernels[other, p])
    w.raises("cross, right", RuntimeError, lambda: m.kernels[p, other])
    w.raises("copy", RuntimeError, lambda: m(other))
    unchanged(w, m, p, q, P, x, y, x2)
