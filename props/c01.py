"""C01: sums, differences and multiples of processes have the exact joint law."""
from pyvc.world import contract

from .common import DETERMINISTIC, Lin, check_law, inputs, proc, touch

MUL = ("stheno.model.measure:Measure.mul(GP, Numeric)", "stheno.model.gp:GP.__mul__(Numeric)")
SUMS = ("stheno.model.measure:Measure.sum(GP, GP)", "stheno.model.gp:GP.__add__(GP)")


def scene(w, operands="pq"):
    """A measure with two operands and a third process, and perhaps a posterior in which all of them live."""
    zero = w.choose("zero means", (), ("p",))
    m, p, q, r = w.law("p", "q", "r", zero_mean=zero, independent=w.choose("independent", (), ("pq", "pr"), DETERMINISTIC))
    measures = [("prior", m, "")]
    if w.choose("posterior", False, True):
        measures.append(("posterior", w.posterior(m, "P."), "P."))
    touch(w, m, [p, q, r])
    return m, p, q, r, measures


def conclude(w, s, lin, m, p, q, r, measures, ds=(None, 2, "batch")):
    from stheno import GP

    x, y, x2 = inputs(w, ds)
    # The process is the first argument of kernels of processes that come later as well.
    for name, measure, prefix in measures:
        others = [("p", p, proc("p")), ("q", q, proc("q")), ("r", r, proc("r"))]
        check_law(w, name, measure, s, lin, others, x, y, x2, prefix)
    w.eq("own mean", s.mean(x), m.means[s](x))
    w.eq("own kernel", s.kernel(x, y), m.kernels[s](x, y))


@contract("GP + GP, GP - GP", *SUMS, "stheno.random:Random.__sub__", "stheno.random:Random.__neg__")
def sums(w):
    m, p, q, r, measures = scene(w)
    kind = w.choose("kind", "p+q", "q+p", "p-q", "p+p", "p-p", "(p+q)+p", "p-(q+p)")
    s, c = {
        "p+q": (lambda: p + q, (1, 1)),
        "q+p": (lambda: q + p, (1, 1)),
        "p-q": (lambda: p - q, (1, -1)),
        "p+p": (lambda: p + p, (2, 0)),
        "p-p": (lambda: p - p, (0, 0)),
        "(p+q)+p": (lambda: (p + q) + p, (2, 1)),
        "p-(q+p)": (lambda: p - (q + p), (0, -1)),
    }[kind]
    conclude(w, s(), Lin([(c[0], "p"), (c[1], "q")]), m, p, q, r, measures)


@contract(
    "GP with numbers",
    *MUL,
    "stheno.model.measure:Measure.sum(GP, Numeric)",
    "stheno.model.gp:GP.__add__(Numeric)",
    "stheno.random:Random.__radd__",
    "stheno.random:Random.__rmul__",
    "stheno.random:Random.__rsub__",
    "stheno.random:Random.__truediv__",
    "stheno.random:Random.__div__",
)
def numbers(w):
    m, p, q, r, measures = scene(w)
    a = w.choose("number", "a", 0, 1, -1, 2.5)
    if a == "a":
        a = w.num("a")
    kind = w.choose("kind", "p+a", "a+p", "p-a", "a-p", "p*a", "a*p", "p/a", "-p")
    if kind == "p/a":
        w.assume(not (isinstance(a, int) and a == 0))
    s, lin = {
        "p+a": (lambda: p + a, lambda: Lin([(1, "p")], [a])),
        "a+p": (lambda: a + p, lambda: Lin([(1, "p")], [a])),
        "p-a": (lambda: p - a, lambda: Lin([(1, "p")], [-a])),
        "a-p": (lambda: a - p, lambda: Lin([(-1, "p")], [a])),
        "p*a": (lambda: p * a, lambda: Lin([(a, "p")])),
        "a*p": (lambda: a * p, lambda: Lin([(a, "p")])),
        "p/a": (lambda: p / a, lambda: Lin([(1 / a, "p")])),
        "-p": (lambda: -p, lambda: Lin([(-1, "p")])),
    }[kind]
    conclude(w, s(), lin(), m, p, q, r, measures)


@contract(
    "GP with functions",
    "stheno.model.measure:Measure.mul(GP, FunctionType)",
    "stheno.model.measure:Measure.sum(GP, FunctionType)",
    "stheno.model.gp:GP.__mul__(FunctionType)",
    "stheno.model.gp:GP.__add__(FunctionType)",
)
def functions(w):
    m, p, q, r, measures = scene(w)
    f = w.fn("f")
    F = lambda x: w.apply("f", x)
    s, lin = w.choose("kind", *range(4)), None
    s, lin = [
        (lambda: p + f, Lin([(1, "p")], [F])),
        (lambda: f + p, Lin([(1, "p")], [F])),
        (lambda: p * f, Lin([(F, "p")])),
        (lambda: f * p, Lin([(F, "p")])),
    ][s]
    conclude(w, s(), lin, m, p, q, r, measures)


@contract("compositions", *SUMS, *MUL, weight=5)
def compositions(w):
    m, p, q, r, measures = scene(w)
    f, g = w.fn("f"), w.fn("g")
    F, G = (lambda x: w.apply("f", x)), (lambda x: w.apply("g", x))
    a, b = w.num("a"), w.num("b")
    kind = w.choose("kind", *range(5))
    s, lin = [
        (lambda: a * p + b * q - 2, Lin([(a, "p"), (b, "q")], [-2])),
        (lambda: (p - q) / 2 + f * q + g, Lin([(0.5, "p"), (-0.5, "q"), (F, "q")], [G])),
        (lambda: f * (a * p + q) - p, Lin([(lambda x: F(x) * a, "p"), (F, "q"), (-1, "p")])),
        (lambda: g * (f * p) + 1 - b * (q + 1), Lin([(lambda x: w.had(F(x), G(x)), "p"), (-b, "q")], [1, -b])),
        (lambda: sum([p, q, p]) * b, Lin([(2 * b, "p"), (b, "q")])),
    ][kind]
    conclude(w, s(), lin, m, p, q, r, measures)


@contract("processes that share means and kernels", *SUMS, *MUL)
def shared_objects(w):
    """Independent processes are independent, also if they were made with the same mean and kernel objects."""
    from stheno import GP

    m, p, q = w.law("p", "q")
    mean, kernel = m.means[p], m.kernels[p]
    with_mean = w.choose("means", "shared", "zero") == "shared"
    # Both can be made with the objects, or one of them is the process that has a dependent one.
    first = w.choose("first", "process", "copy", "new")
    a = {"process": lambda: p, "copy": lambda: m(p), "new": lambda: GP(mean, kernel, measure=m)}[first]()
    b = GP(mean, kernel, measure=m) if with_mean else GP(kernel, measure=m)
    kind = w.choose("kind", "a+b", "b+a", "a-b", "b-a", "2*a+b", "(a+b)+a")
    s, ca, cb = {
        "a+b": (lambda: a + b, 1, 1),
        "b+a": (lambda: b + a, 1, 1),
        "a-b": (lambda: a - b, 1, -1),
        "b-a": (lambda: b - a, -1, 1),
        "2*a+b": (lambda: 2 * a + b, 2, 1),
        "(a+b)+a": (lambda: (a + b) + a, 2, 1),
    }[kind]
    s = s()
    x, y, x2 = inputs(w, (None, 2))
    M, K, C = w.M("p", x), w.K("p", "p", x, y), w.K("p", "q", x, y)
    w.eq("mean", m.means[s](x), M * (ca + (cb if with_mean else 0)))
    w.eq("kernel", m.kernels[s](x, y), K * (ca**2 + cb**2))
    w.eq("variances", m.kernels[s].elwise(x), w.diag(w.K("p", "p", x, x)) * (ca**2 + cb**2))
    for name, o, c in [("a", a, ca), ("b", b, cb)]:
        w.eq("covariance with " + name, m.kernels[s, o](x, y), K * c)
        w.eq("covariance of " + name + " with it", m.kernels[o, s](x, y), K * c)
    dependent = 0 if first == "new" else ca
    w.eq("covariance with q", m.kernels[s, q](x, y), C * dependent)
    w.eq("covariance of q with it", m.kernels[q, s](x, y), w.K("q", "p", x, y) * dependent)
    w.eq("covariance of the operands", m.kernels[a, b](x, y), K * 0)
