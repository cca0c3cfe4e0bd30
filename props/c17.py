"""C17: products of processes are moment matched."""
from pyvc.world import contract

from .c08 import different_sizes, prior_law, structured, with_twin
from .common import DETERMINISTIC, inputs, touch

MUL = ("stheno.model.measure:Measure.mul", "stheno.model.gp:GP.__mul__")


class Laws:
    """Mean and covariance functions of Gaussian processes, as recursive definitions.

    Processes are names of atoms, `("*", a, b)` for a product, `("+", a, b)` for a sum, `("c", c, a)` for a multiple,
    and `("shift", c, a)` for a shift.
    """

    def __init__(self, w, prefix=""):
        self.w, self.P = w, prefix

    def M(self, a, x):
        w = self.w
        if isinstance(a, str):
            return w.M(self.P + a, x)
        if a[0] == "*":
            m = w.had(self.M(a[1], x), self.M(a[2], x))
            return m + w.diag(self.K(a[1], a[2], x, x))
        if a[0] == "+":
            return self.M(a[1], x) + self.M(a[2], x)
        if a[0] == "c":
            return self.M(a[2], x) * a[1]
        return self.M(a[2], w.col(x) - a[1])

    def K(self, a, b, x, y):
        w = self.w
        if isinstance(a, str) and isinstance(b, str):
            return w.K(self.P + a, self.P + b, x, y)
        if depth(b) > depth(a):
            # Products are defined by their covariances with what came before.
            return w.T(self.K(b, a, y, x))
        if a[0] == "*":
            r = self.scaled(a[1], x, self.K(a[2], b, x, y)) + self.scaled(a[2], x, self.K(a[1], b, x, y))
            if a == b:
                # The part that is independent of everything else.
                r = r + w.had(self.K(a[1], a[1], x, y), self.K(a[2], a[2], x, y))
                r = r + w.had(self.K(a[1], a[2], x, y), self.K(a[2], a[1], x, y))
            return r
        if a[0] == "+":
            return self.K(a[1], b, x, y) + self.K(a[2], b, x, y)
        if a[0] == "c":
            return self.K(a[2], b, x, y) * a[1]
        return self.K(a[2], b, w.col(x) - a[1], y)

    def scaled(self, a, x, k):
        return self.w.dg(self.M(a, x)) @ k


class OtherLaws(Laws):
    """Atoms follow another law."""

    def __init__(self, law):
        Laws.__init__(self, law.w)
        self.law = law

    def M(self, a, x):
        return self.law.M(a, x) if isinstance(a, str) else Laws.M(self, a, x)

    def K(self, a, b, x, y):
        if isinstance(a, str) and isinstance(b, str):
            return self.law.K(a, b, x, y)
        return Laws.K(self, a, b, x, y)


def depth(a):
    return 0 if isinstance(a, str) else 1 + max(depth(b) for b in a[1:] if isinstance(b, (str, tuple)))


def build(ps, law):
    if isinstance(law, str):
        return ps[law]
    if law[0] == "*":
        return build(ps, law[1]) * build(ps, law[2])
    if law[0] == "+":
        return build(ps, law[1]) + build(ps, law[2])
    if law[0] == "c":
        return law[1] * build(ps, law[2])
    return build(ps, law[2]).shift(law[1])


def check(w, label, measure, s, law, others, L, x, y, x2):
    w.eq(f"{label}: mean", measure.means[s](x), L.M(law, x))
    k = measure.kernels[s]
    w.eq(f"{label}: covariance", k(x, y), L.K(law, law, x, y))
    w.eq(f"{label}: covariance at equal inputs", k(x), L.K(law, law, x, x))
    w.eq(f"{label}: variances", k.elwise(x), w.diag(L.K(law, law, x, x)))
    w.eq(f"{label}: element-wise covariances", k.elwise(x, x2), w.diag(L.K(law, law, x, x2)))
    for name, q, b in others:
        w.eq(f"{label}: cross-covariance with {name}, left", measure.kernels[s, q](x, y), L.K(law, b, x, y))
        w.eq(f"{label}: cross-covariance with {name}, right", measure.kernels[q, s](x, y), L.K(b, law, x, y))
        w.eq(
            f"{label}: element-wise cross-covariance with {name}",
            measure.kernels[s, q].elwise(x, x2),
            w.diag(L.K(law, b, x, x2)),
        )
        w.eq(f"{label}: cross-covariance with {name} at equal inputs", measure.kernels[q, s](x), L.K(b, law, x, x))


def scene(w, *independent, full=False):
    zero = w.choose("zero means", (), ("p",), *w.more(("p", "q", "r"))) if full else w.choose("zero means", (), *w.more(("p",)))
    m, p, q, r = w.law("p", "q", "r", zero_mean=zero, independent=w.choose("independent", *independent))
    measures = [("prior", m, "")]
    if w.choose("posterior", False, True):
        measures.append(("posterior", w.posterior(m, "P."), "P."))
    if full:
        touch(w, m, [p, q, r])
    return measures, {"p": p, "q": q, "r": r}


@contract("products of two processes", *MUL)
def products(w):
    measures, ps = scene(w, (), ("pq",), ("pq", "pr", "qr"), DETERMINISTIC, *w.more(("pr", "qr")), full=True)
    a, b = w.choose("factors", ("p", "q"), ("q", "p"), ("p", "p"), ("r", "p"))
    s = ps[a] * ps[b]
    x, y, x2 = inputs(w, (None, "batch", *w.more(2)))
    for label, measure, P in measures:
        check(w, label, measure, s, ("*", a, b), [(n, q, n) for n, q in ps.items()], Laws(w, P), x, y, x2)
    L = Laws(w)
    w.eq("own mean", s.mean(x), L.M(("*", a, b), x))
    w.eq("own kernel", s.kernel(x, y), L.K(("*", a, b), ("*", a, b), x, y))


@contract("products in one measure", "stheno.model.measure:Measure.mul")
def in_measure(w):
    """The operation of the measure, directly."""
    from stheno import GP

    measures, ps = scene(w, ())
    label, measure, P = measures[-1]
    a, b = w.choose("factors", ("p", "q"), ("p", "p"))
    s = GP()
    w.true("returns the product", measure.mul(s, ps[a], ps[b]) is s)
    x, y, x2 = inputs(w, (None,))
    check(w, label, measure, s, ("*", a, b), [(n, q, n) for n, q in ps.items()], Laws(w, P), x, y, x2)


@contract("products of derived processes", *MUL, runs=20)
def derived(w):
    measures, ps = scene(w, (), ("pq",))
    c = w.num("c")
    law = w.choose(
        "product",
        ("*", ("+", "p", "q"), ("+", "p", ("c", -1, "q"))),
        ("*", ("c", c, "p"), "q"),
        ("*", "p", ("+", "p", "q")),
        ("*", ("shift", c, "p"), "p"),
    )
    s = build(ps, law)
    x, y, x2 = inputs(w, (None,))
    for label, measure, P in measures:
        check(w, label, measure, s, law, [(n, q, n) for n, q in ps.items()], Laws(w, P), x, y, x2)


@contract("products of products", *MUL, runs=12)
def nested(w):
    measures, ps = scene(w, (), ("pr", "qr"))
    first = ("*", "p", "q")
    law = w.choose("product", ("*", first, "r"), ("*", "p", first), ("*", first, first))
    ps["s"] = ps["p"] * ps["q"]
    a, b = (ps["s"] if f == first else ps[f] for f in law[1:])
    t = a * b
    x, y, x2 = inputs(w, (None,))
    for label, measure, P in measures:
        L = Laws(w, P)
        others = [(n, q, first if n == "s" else n) for n, q in ps.items()]
        check(w, label, measure, t, law, others, L, x, y, x2)


@contract("processes derived from products", *MUL, runs=20)
def later(w):
    """What is built from a product afterwards is jointly distributed with it."""
    measures, ps = scene(w, (), ("pq",))
    law = ("*", "p", "q")
    s = ps["p"] * ps["q"]
    c = w.num("c")
    which = w.choose("later", ("+", law, "p"), ("c", c, law), ("shift", c, law), ("+", law, ("c", 2, "r")))
    t = {"+": lambda: s + build(ps, which[2]), "c": lambda: which[1] * s, "shift": lambda: s.shift(which[1])}[which[0]]()
    x, y, x2 = inputs(w, (None,))
    for label, measure, P in measures:
        others = [(n, q, n) for n, q in ps.items()] + [("the product", s, law)]
        check(w, label, measure, t, which, others, Laws(w, P), x, y, x2)


@contract("two products", *MUL)
def two(w):
    """Equal factors, multiplied twice: the independent parts of the approximations are independent."""
    measures, ps = scene(w, (), ("pq",))
    s, t = ps["p"] * ps["q"], ps["p"] * ps["q"]
    x, y, x2 = inputs(w, (None,))
    for label, measure, P in measures:
        L = Laws(w, P)
        linear = L.K(("*", "p", "q"), ("*", "p", "q"), x, y)
        k = w.had(L.K("p", "p", x, y), L.K("q", "q", x, y)) + w.had(L.K("p", "q", x, y), L.K("q", "p", x, y))
        w.eq(f"{label}: covariance between the products", measure.kernels[s, t](x, y), linear - k)
        w.eq(f"{label}: covariance of the first", measure.kernels[s](x, y), linear)
        w.eq(f"{label}: covariance of the second", measure.kernels[t](x, y), linear)


@contract("products of multi-output processes", *MUL, finding="multi-output-factors", numeric_only="the code raises an error", runs=4)
def multi(w):
    """The product of Cartesian products is the product of the outputs."""
    from stheno import cross

    m, p, q = w.law("p", "q")
    s = cross(p, q) * cross(p, q)
    x = w.input("x", w.dim("n"), None)
    L = Laws(w)
    w.eq("mean", s.mean(x), w.stack(L.M(("*", "p", "p"), x), L.M(("*", "q", "q"), x)))


@contract("products of processes that share means and kernels", *MUL, runs=20)
def shared_objects(w):
    """What matters is which processes are multiplied, not which means and kernels."""
    from stheno import GP

    m, p, q = w.law("p", "q")
    t = GP(m.means[p], m.kernels[p], measure=m)
    ps = dict(p=m(p) if w.choose("p is", "process", "copy") == "copy" else p, t=t, q=q)
    law = w.choose("kind", ("*", "p", "t"), ("*", "t", "p"), ("*", "t", "t"), ("*", "p", "p"), ("*", "t", "q"))
    s = build(ps, law)
    x, y, x2 = inputs(w, (None, 2))
    others = [(n, o, n) for n, o in ps.items()]
    check(w, "prior", m, s, law, others, OtherLaws(with_twin(prior_law(w), "t", "p")), x, y, x2)


@contract("products of processes with variances that have structure", *MUL, runs=20)
def structures(w):
    m, p = w.law("p")
    ps = dict(p=p)
    laws = structured(w, m, prior_law(w), ps)
    law = w.choose("kind", ("*", "p", "c"), ("*", "l", "p"), ("*", "l", "c"), ("*", "c", "c"), ("*", "l", "l"))
    d = w.choose("d", None, 2) if law != ("*", "l", "l") else None
    n, l = different_sizes(w, "n", "l")
    x, y, x2 = w.input("x", n, d), w.input("y", l, d), w.input("x2", n, d)
    others = [(n, o, n) for n, o in ps.items()]
    check(w, "prior", m, build(ps, law), law, others, OtherLaws(laws), x, y, x2)
