"""C11: Cartesian products of processes stack outputs block by block."""
from pyvc.world import contract

from .c08 import Law, different_sizes, prior_law, structured, with_twin
from .c12 import make_noise
from .common import touch

KERNEL = (
    "stheno.mo.kernel:pairwise",
    "stheno.mo.kernel:elwise",
    "stheno.mo.mean:MultiOutputMean.__call__",
    "stheno.mo.input:pairwise",
    "stheno.mo.input:elwise",
    "stheno.mo.adk:pairwise",
    "stheno.model.measure:Measure.cross",
    "stheno.model.gp:cross",
)
SIZE = (
    "stheno.mo.infer:infer_size",
    "stheno.mo.infer:dimensionality",
    "stheno.mo.kernel:dimensionality",
    "stheno.model.fdd:num_elements",
)

# Nested tuples of names.
PRODUCTS = (
    ("p",),
    ("p", "q"),
    ("q", "p"),
    ("p", "p"),
    ("q", "f", "p"),
    ("q", ("p", "f")),
    (("p", "q"), ("q", "p")),
    ("p", ("q", ("f", "p")), "p"),
)


def build(ps, spec):
    """A Cartesian product."""
    from stheno import cross

    if isinstance(spec, str):
        return ps[spec]
    return cross(*[build(ps, s) for s in spec])


def flat(spec):
    return (spec,) if isinstance(spec, str) else tuple(n for s in spec for n in flat(s))


def stacked(w, law, X):
    """Mean of a stack of names at inputs."""
    return w.stack(*[law.M(a, x) for a, x in X])


def cov(w, law, X, Z):
    return w.blocks([[law.K(a, b, x, z) for b, z in Z] for a, x in X])


def at(spec, x):
    return [(a, x) for a in flat(spec)]


def law_of(w):
    """A measure with the processes `p`, `q`, and `f`, which can be a posterior."""
    m, p, q, f = w.law("p", "q", "f")
    ps = dict(p=p, q=q, f=f)
    if w.choose("measure", "prior", "posterior") == "posterior":
        return w.posterior(m, "P."), ps, prior_law(w, "P.")
    return m, ps, prior_law(w)


def check_product(w, label, m, c, spec, law, others, u, v, u2):
    """The process `c` is the stack `spec` under `m`, jointly with `others` (a mapping to processes and stacks)."""
    U, V, U2 = at(spec, u), at(spec, v), at(spec, u2)
    w.eq(f"{label}mean", m.means[c](u), stacked(w, law, U))
    k = m.kernels[c]
    w.eq(f"{label}covariance", k(u, v), cov(w, law, U, V))
    w.eq(f"{label}covariance at equal inputs", k(u), cov(w, law, U, U))
    w.eq(f"{label}variances", k.elwise(u), w.diag(cov(w, law, U, U)))
    w.eq(f"{label}element-wise covariances", k.elwise(u, u2), w.diag(cov(w, law, U, U2)))
    for name, (o, ospec) in others.items():
        w.eq(f"{label}cross-covariance with {name}, left", m.kernels[c, o](u, v), cov(w, law, U, at(ospec, v)))
        w.eq(f"{label}cross-covariance with {name}, right", m.kernels[o, c](u, v), cov(w, law, at(ospec, u), V))
        w.eq(f"{label}cross-covariance with {name} at equal inputs", m.kernels[c, o](u), cov(w, law, U, at(ospec, u)))


def points(w, d=None):
    n, l = w.dim("n", ("many", *w.more("one"))), w.dim("l", ("many", *w.more("one")))
    if d == "batch":
        b = (w.dim("b"),)
        return w.input("u", n, 2, b), w.input("v", l, 2, b), w.input("u2", n, 2, b)
    return w.input("u", n, d), w.input("v", l, d), w.input("u2", n, d)


@contract("a product is the stack of its members", *KERNEL)
def products(w):
    m, ps, law = law_of(w)
    spec = w.choose("product", *PRODUCTS)
    touch(w, m, ps.values())
    u, v, u2 = points(w, w.choose("d", None, 2, "batch"))
    c = build(ps, spec)
    others = {n: (p, n) for n, p in ps.items()}
    if w.choose("another product", True, False):
        others["another product"] = (build(ps, ("q", "p")), ("q", "p"))
    check_product(w, "", m, c, spec, law, others, u, v, u2)
    if m is c.measure:
        w.eq("mean of the process", c.mean(u), stacked(w, law, at(spec, u)))
        w.eq("kernel of the process", c.kernel(u, v), cov(w, law, at(spec, u), at(spec, v)))


@contract("products of derived processes, and processes derived from products", *KERNEL)
def derived(w):
    from stheno import GP, cross

    m, p, q, f = w.law("p", "q", "f")
    ps = dict(p=p, q=q, f=f)
    law = prior_law(w)
    d = w.choose("d", None, "batch")
    u, v, u2 = points(w, d)
    a = w.num("a")
    kind = w.choose("kind", "members", "scaled", "sum", "difference", "copy", "sum with earlier", "selected", "stretched", "shifted")
    if kind == "members":
        s = a * p + q
        g = law.combined(s={"p": a, "q": 1})
        c = cross(s, q, s)
        check_product(w, "", m, c, ("s", "q", "s"), g, {"p": (p, "p"), "s": (s, "s")}, u, v, u2)
        return
    if kind in ("selected", "stretched", "shifted"):
        c = cross(p, q)
        if kind == "stretched":
            t = lambda x: x / 2
            c = c.stretch(2)
        elif kind == "shifted":
            t = lambda x: x - 3
            c = c.shift(3)
        else:
            if d == "batch":
                return
            u, v, u2 = points(w, 3)
            t = lambda x: w.columns(x, [2, 0])
            c = c.select(2, 0)
        g = Law(
            w,
            lambda b, x: law.M(b[1:], t(x)) if b[0] == "t" else law.M(b, x),
            lambda b, e, x, z: law.K(b.lstrip("t"), e.lstrip("t"), t(x) if b[0] == "t" else x, t(z) if e[0] == "t" else z),
        )
        check_product(w, "", m, c, ("tp", "tq"), g, {"p": (p, "p"), "f": (f, "f")}, u, v, u2)
        return
    c, e = cross(p, q), cross(q, f)
    if kind == "scaled":
        d, names = a * c, dict(s={"p": a}, t={"q": a})
    elif kind == "sum":
        d, names = c + e, dict(s={"p": 1, "q": 1}, t={"q": 1, "f": 1})
    elif kind == "sum with earlier":
        d, names = a * e + c, dict(s={"q": a, "p": 1}, t={"f": a, "q": 1})
    elif kind == "difference":
        d, names = c - e, dict(s={"p": 1, "q": -1}, t={"q": 1, "f": -1})
    else:
        d, names = m(c), dict(s={"p": 1}, t={"q": 1})
    others = {"p": (p, "p"), "f": (f, "f"), "c": (c, ("p", "q")), "e": (e, ("q", "f"))}
    check_product(w, "", m, d, ("s", "t"), law.combined(**names), others, u, v, u2)


@contract("products in posteriors", *KERNEL)
def posteriors(w):
    """Conditioning before or after a product is constructed."""
    from stheno import cross

    m, p, q, f = w.law("p", "q", "f")
    ps = dict(p=p, q=q, f=f)
    law = prior_law(w)
    u, v, u2 = points(w)
    k = w.dim("k")
    x, y = w.input("x", k), w.column("y", k)
    noise, N = make_noise(w, k, kinds=("matrix", *w.more("none")))
    when = w.choose("product is constructed", "before", "after", "by conditioning")
    if when == "before":
        c = cross(p, q)
        touch(w, m, [c])
        post = m | (f(x, noise), y)
        law = law.conditioned("f", x, N, y)
    elif when == "after":
        post = m | (f(x, noise), y)
        c = cross(p, q)
        law = law.conditioned("f", x, N, y)
    else:
        # The observed process is a product.
        c = cross(p, q)
        n = k * 2
        y = w.column("y2", n)
        noise, N = make_noise(w, n, "noise2", ("matrix", *w.more("vector")))
        post = m | (c(x, noise), y)
        X = at(("p", "q"), x)
        prior, C = law, w.inv(cov(w, law, at(("p", "q"), x), at(("p", "q"), x)) + N)
        law = Law(
            w,
            lambda b, z: prior.M(b, z) + cov(w, prior, [(b, z)], X) @ C @ (y - stacked(w, prior, X)),
            lambda b, e, z, t: prior.K(b, e, z, t) - cov(w, prior, [(b, z)], X) @ C @ cov(w, prior, X, [(e, t)]),
        )
    check_product(w, "", post, c, ("p", "q"), law, {"p": (p, "p"), "f": (f, "f")}, u, v, u2)


@contract("zero means", *KERNEL)
def zero_means(w):
    from stheno import cross

    zero = w.choose("zero mean", ("p",), ("p", "q"))
    m, p, q = w.law("p", "q", zero_mean=zero)
    law = prior_law(w)
    u, v, u2 = points(w)
    c = cross(p, q)
    check_product(w, "", m, c, ("p", "q"), law, {"p": (p, "p")}, u, v, u2)
    d = c(u)
    w.eq("mean", d.mean, stacked(w, law, at(("p", "q"), u)))
    w.eq("var", d.var, cov(w, law, at(("p", "q"), u), at(("p", "q"), u)))


@contract("products of processes that share means and kernels", *KERNEL)
def shared_objects(w):
    """What matters is which processes are in the product, not which means and kernels."""
    from stheno import GP

    m, p, q = w.law("p", "q")
    t = GP(m.means[p], m.kernels[p], measure=m)
    ps = dict(p=m(p) if w.choose("p is", "process", "copy") == "copy" else p, t=t, q=q)
    law = with_twin(prior_law(w), "t", "p")
    spec = w.choose("product", ("p", "t"), ("t", "p"), ("t", "q", "t"), ("p", ("t", "p")))
    u, v, u2 = points(w)
    others = {n: (o, n) for n, o in ps.items()}
    others["another product"] = (build(ps, ("t", "q")), ("t", "q"))
    check_product(w, "", m, build(ps, spec), spec, law, others, u, v, u2)


@contract("products of processes with variances that have structure", *KERNEL)
def structures(w):
    m, p = w.law("p")
    ps = dict(p=p)
    law = structured(w, m, prior_law(w), ps)
    ps["s"] = ps["p"] + ps["c"] - ps["l"]
    law = law.combined(s={"p": 1, "c": 1, "l": -1})
    spec = w.choose("product", ("c", "l"), ("l", "p"), ("c", ("s", "c")), ("l", "s", "l"))
    d = w.choose("d", None, 2)
    n, l = different_sizes(w, "n", "l")
    u, v, u2 = w.input("u", n, d), w.input("v", l, d), w.input("u2", n, d)
    # The processes are there before the product.
    others = {n: (o, n) for n, o in ps.items()}
    others["another product"] = (build(ps, ("l", "c")), ("l", "c"))
    check_product(w, "", m, build(ps, spec), spec, law, others, u, v, u2)


@contract("tuples of distributions as inputs", *KERNEL, *SIZE)
def tuples(w):
    from stheno import cross

    m, ps, law = law_of(w)
    p, q, f = ps.values()
    kind = w.choose(
        "blocks", ("p", "q"), ("q", "p"), ("q", "q"), ("p",), ("f", "p", "f"), ("nested", "f"), ("f", "nested")
    )
    spec = ("p", "q", "f") if "nested" not in kind else (("p", "q"), "f")
    c = build(ps, spec)
    inner = cross(p, q) if "nested" in kind else None
    if inner is not None:
        c = cross(inner, f)
    modes = [("many",), ("many", *w.more("one")), ("many",)]
    ks = [w.dim(f"k{i}", modes[i]) for i in range(len(kind))]
    # A batch of inputs for every process.
    inputs = (2, (w.dim("b"),)) if w.choose("batch", False, True) else ()
    xs = [w.input(f"x{i}", k, *inputs) for i, k in enumerate(ks)]
    x = tuple((inner if a == "nested" else ps[a])(z) for a, z in zip(kind, xs))
    X = [(b, z) for a, z in zip(kind, xs) for b in (("p", "q") if a == "nested" else (a,))]
    n = w.dim("n")
    v = w.input("v", n, *inputs)
    V = at(spec, v)
    k = m.kernels[c]
    w.eq("mean", m.means[c](x), stacked(w, law, X))
    w.eq("covariance", k(x), cov(w, law, X, X))
    w.eq("variances", k.elwise(x), w.diag(cov(w, law, X, X)))
    w.eq("covariance with a plain input", k(x, v), cov(w, law, X, V))
    w.eq("covariance of a plain input", k(v, x), cov(w, law, V, X))
    w.eq("covariance with another process", m.kernels[c, f](x, v), cov(w, law, X, [("f", v)]))
    w.eq("covariance of another process", m.kernels[f, c](v, x), cov(w, law, [("f", v)], X))
    noise, N = make_noise(w, cov(w, law, X, X).shape[-2], kinds=("scalar", "vector"))
    d = m(c(x, noise))
    w.eq("mean of the distribution", d.mean, stacked(w, law, X))
    w.eq("variance of the distribution", d.var, cov(w, law, X, X) + N)
    w.eq("variances of the distribution", w.as_column(d.var_diag), w.diag(cov(w, law, X, X) + N))
    if len(kind) == 2:
        # Different tuples of the same sizes.
        zs = [w.input(f"z{i}", k, *inputs) for i, k in enumerate(ks)]
        z = tuple((inner if a == "nested" else ps[a])(t) for a, t in zip(kind, zs))
        Z = [(b, t) for a, t in zip(kind, zs) for b in (("p", "q") if a == "nested" else (a,))]
        w.eq("covariance of two tuples", k(x, z), cov(w, law, X, Z))
        w.eq("element-wise covariance of two tuples", k.elwise(x, z), w.diag(cov(w, law, X, Z)))


@contract("a single distribution as input", *KERNEL)
def single(w):
    from stheno import cross

    m, ps, law = law_of(w)
    c = build(ps, w.choose("product", ("p", "q"), ("q", "p", "q")))
    a = w.choose("process", "p", "q")
    u, v, u2 = points(w, w.choose("d", None, "batch"))
    w.eq("mean", m.means[c](ps[a](u)), law.M(a, u))
    w.eq("covariance", m.kernels[c](ps[a](u), ps["q"](v)), law.K(a, "q", u, v))
    w.eq("variances", m.kernels[c].elwise(ps[a](u), ps["q"](u2)), w.diag(law.K(a, "q", u, u2)))
    # A distribution is the same as a tuple of it.
    w.eq("variances, left tuple", m.kernels[c].elwise((ps[a](u),), ps["q"](u2)), w.diag(law.K(a, "q", u, u2)))
    w.eq("variances, right tuple", m.kernels[c].elwise(ps[a](u), (ps["q"](u2),)), w.diag(law.K(a, "q", u, u2)))
    pair = (ps["q"](u), ps["p"](u2))
    X, Z = [("q", u), ("p", u2)], [(a, v)]
    w.eq("covariance, left tuple", m.kernels[c](pair, ps[a](v)), cov(w, law, X, Z))
    w.eq("covariance, right tuple", m.kernels[c](ps[a](v), pair), cov(w, law, Z, X))


@contract("element-wise evaluation of products", *KERNEL)
def elementwise(w):
    """A product of one process behaves like that process, and a product that is an argument of a product is matched
    with all of its outputs."""
    from stheno import cross

    m, ps, law = law_of(w)
    u, v, u2 = points(w, w.choose("d", None, "batch"))
    a, b = w.choose("member", "p", "q"), w.choose("other", "p", "q")
    c = cross(ps[a])
    k, left, right = m.kernels[c], m.kernels[c, ps[b]], m.kernels[ps[b], c]
    own, other = law.K(a, a, u, u2), law.K(a, b, u, u2)
    w.eq("plain inputs", k.elwise(u, u2), w.diag(own))
    w.eq("plain and distribution", k.elwise(u, ps[b](u2)), w.diag(other))
    w.eq("distribution and plain", k.elwise(ps[b](u), u2), w.diag(law.K(b, a, u, u2)))
    w.eq("plain and tuple", k.elwise(u, (ps[b](u2),)), w.diag(other))
    w.eq("tuple and plain", k.elwise((ps[b](u),), u2), w.diag(law.K(b, a, u, u2)))
    w.eq("cross-covariance", left.elwise(u, u2), w.diag(other))
    w.eq("cross-covariance, exchanged", right.elwise(u, u2), w.diag(law.K(b, a, u, u2)))
    w.eq("cross-covariance, distribution", left.elwise(ps[a](u), u2), w.diag(other))
    w.eq("cross-covariance, distribution, exchanged", right.elwise(u, ps[a](u2)), w.diag(law.K(b, a, u, u2)))
    w.eq("cross-covariance, tuple", left.elwise((ps[a](u),), u2), w.diag(other))
    w.eq("cross-covariance, tuple, exchanged", right.elwise(u, (ps[a](u2),)), w.diag(law.K(b, a, u, u2)))
    # A product as a member of a product.
    inner = cross(ps[a], ps["q"])
    outer = m.kernels[cross(inner)]
    X, Z = at((a, "q"), u), at((a, "q"), u2)
    w.eq("member with all outputs, right", outer(u, inner(u2)), cov(w, law, X, Z))
    w.eq("member with all outputs, left", outer(inner(u), u2), cov(w, law, X, Z))
    w.eq("variances, left", outer.elwise(inner(u), u2), w.diag(cov(w, law, X, Z)))
    w.eq("variances, right", outer.elwise(u, inner(u2)), w.diag(cov(w, law, X, Z)))
    w.eq("variances of both", outer.elwise(inner(u), inner(u2)), w.diag(cov(w, law, X, Z)))


@contract("sizes", *SIZE)
def sizes(w):
    """The inferred size is the number of rows."""
    from mlkernels import num_elements
    from stheno import cross, infer_size

    m, p, q, f = w.law("p", "q", "f")
    ps = dict(p=p, q=q, f=f)
    n = w.dim("n", ("many", "one", "zero"))
    u = w.input("u", n, w.choose("d", None, 2))
    v = w.input("v", w.dim("k"))
    spec = w.choose("product", *PRODUCTS, "p")
    c = build(ps, spec)
    size = len(flat(spec))
    how = w.choose("process", "product", "scaled", "sum", "posterior", "observed posterior", "copy")
    if how == "scaled":
        c = 2 * c
    elif how == "sum":
        c = c + build(ps, spec)
    elif how == "posterior":
        post = m | (f(v, 1), w.column("y", v.shape[0]))
        c, p = post(c), post(p)
    elif how == "observed posterior":
        post = m | (cross(p, q)(v, 1), w.column("y2", v.shape[0] * 2))
        c, p = post(c), post(p)
    elif how == "copy":
        c = m(c)
    w.true("inferred size", infer_size(c.kernel, u) == n * size)
    w.true("size of the mean", c.mean(u).shape[0] == n * size)
    w.true("size of the variance", c.kernel(u).shape[0] == n * size)
    d = c(u, 1)
    w.true("size of the distribution", num_elements(d) == n * size)
    w.true("size of the noise", d.noise.shape[0] == n * size)
    w.true("size of a product of distributions", infer_size(cross(c, p).kernel, (d, p(v))) == n * size + v.shape[0])
    w.true("size of a product of the product", infer_size(cross(c, p).kernel, u) == n * size + n)


@contract("sizes that cannot be inferred", *SIZE)
def no_size(w):
    from stheno import GP, Measure, cross, infer_size

    m, p, q, f = w.law("p", "q", "f")
    u = w.input("u", w.dim("n", ("many", "one")))
    c, e = cross(p, q), cross(f, p, q)
    kind = w.choose("kind", "cross-covariance, left", "cross-covariance, right", "mismatch", "derived", "process")
    if kind == "mismatch":
        w.raises("sizes do not match", RuntimeError, lambda: infer_size((m.kernels[c] + m.kernels[e]), u))
        return
    if kind == "process":
        # A process with such a kernel has no distribution.
        g = GP(m.kernels[c, p], measure=Measure())
        w.raises("no distribution", RuntimeError, lambda: g(u, 1))
        return
    k = m.kernels[c, f] if kind == "cross-covariance, left" else m.kernels[f, c]
    if kind == "derived":
        k = 2 * m.kernels[e, p]
    w.raises("no size", RuntimeError, lambda: infer_size(k, u))


@contract("element-wise evaluation is only defined for matching inputs", "stheno.mo.input:elwise", "stheno.mo.kernel:elwise")
def unclear(w):
    m, p, q, f = w.law("p", "q", "f")
    from stheno import cross

    n = w.dim("n", ("many", "one"))
    u, z = w.input("u", n), w.input("z", n * 2)
    c = cross(p, q)
    k = m.kernels[c]
    kind = w.choose("arguments", "different lengths", "plain and distribution", "distribution and plain", "as many rows, left", "as many rows, right")
    if kind == "different lengths":
        f = lambda: k.elwise((p(u), q(u)), (p(u),))
    elif kind == "plain and distribution":
        f = lambda: k.elwise(u, p(u))
    elif kind == "as many rows, left":
        # Both sides have as many rows, but those do not belong to one another.
        f = lambda: k.elwise(u, p(z))
    elif kind == "as many rows, right":
        f = lambda: k.elwise(p(z), u)
    else:
        f = lambda: k.elwise(p(u), u)
    w.raises("rejected", ValueError, f)


@contract("independent processes after products", *KERNEL, finding="independent-process-after-product")
def independent_after(w):
    """Known finding: the covariance between a product and a later independent process has the wrong size."""
    from stheno import GP, cross

    m, p, q = w.law("p", "q")
    AtomKernel, AtomMean = w.classes()
    c = cross(p, q)
    new = GP(AtomMean(w, "new"), AtomKernel(w, "new", "new"), measure=m)
    u, v = w.input("u", w.dim("n")), w.input("v", w.dim("l"))
    w.eq("cross-covariance, left", m.kernels[new, c](u, v), w.zeros(u.shape[0], v.shape[0] * 2))
    w.eq("cross-covariance, right", m.kernels[c, new](v, u), w.zeros(v.shape[0] * 2, u.shape[0]))


@contract("constants plus products", *KERNEL, finding="constant-plus-product")
def constant_plus_product(w):
    """Known finding: the mean of a product plus a constant has the wrong size."""
    from stheno import cross

    m, p, q = w.law("p", "q")
    c = cross(p, q) + 1
    u = w.input("u", w.dim("n"))
    law = prior_law(w)
    w.eq("mean", c.mean(u), stacked(w, law, at(("p", "q"), u)) + w.ones(u.shape[0] * 2, 1))
