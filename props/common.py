"""Shared parts of the contracts."""


class Lin:
    """A pathwise combination of processes: sum of coefficient times process, plus an offset.

    Args:
        terms (list): Pairs of coefficients and names.  A coefficient is a number or a function from an input to a
            column.
        offset (list): Numbers or functions from an input to a column.
    """

    def __init__(self, terms, offset=()):
        self.terms, self.offset = list(terms), list(offset)


def times(w, c, x, M):
    """Multiply the rows of `M` by the coefficient `c` at `x`."""
    if callable(c):
        return w.dg(c(x)) @ M
    return M * c


def lin_mean(w, lin, x, prefix=""):
    n = w.M("any", x).shape[-2]
    r = w.zeros(n, 1)
    for c, a in lin.terms:
        r = r + times(w, c, x, w.M(prefix + a, x))
    for o in lin.offset:
        r = r + (o(x) if callable(o) else w.ones(n, 1) * o)
    return r


def lin_cov(w, lin1, lin2, x, y, prefix=""):
    n, m = w.M("any", x).shape[-2], w.M("any", y).shape[-2]
    r = w.zeros(n, m)
    for c1, a1 in lin1.terms:
        for c2, a2 in lin2.terms:
            k = times(w, c1, x, w.K(prefix + a1, prefix + a2, x, y))
            r = r + w.T(times(w, c2, y, w.T(k)))
    return r


# All covariances of a deterministic process `p`.
DETERMINISTIC = ("pp", "pq", "pr")


def proc(name):
    return Lin([(1, name)])


def inputs(w, ds=(None, 2, "batch")):
    """Two different inputs of different sizes and one more with the size of the first."""
    d = ds[0] if len(ds) == 1 else w.choose("input dimensionality", *ds)
    n, m = w.dim("n"), w.dim("m")
    if d == "batch":
        b = (w.dim("b"),)
        return w.input("x", n, 2, b), w.input("y", m, 2, b), w.input("x2", n, 2, b)
    return w.input("x", n, d), w.input("y", m, d), w.input("x2", n, d)


def check_law(w, label, measure, s, lin, others, x, y, x2, prefix="", after=None):
    """The process `s` follows `lin` under `measure` jointly with all `others` (pairs of processes and laws)."""
    w.eq(f"{label} mean", measure.means[s](x), lin_mean(w, lin, x, prefix))
    k = measure.kernels[s]
    w.eq(f"{label} covariance", k(x, y), lin_cov(w, lin, lin, x, y, prefix))
    w.eq(f"{label} covariance at equal inputs", k(x), lin_cov(w, lin, lin, x, x, prefix))
    w.eq(f"{label} variances", k.elwise(x), w.diag(lin_cov(w, lin, lin, x, x, prefix)))
    w.eq(f"{label} element-wise covariances", k.elwise(x, x2), w.diag(lin_cov(w, lin, lin, x, x2, prefix)))
    for name, q, lq in others:
        w.eq(f"{label} cross-covariance with {name}, left", measure.kernels[s, q](x, y), lin_cov(w, lin, lq, x, y, prefix))
        w.eq(f"{label} cross-covariance with {name}, right", measure.kernels[q, s](x, y), lin_cov(w, lq, lin, x, y, prefix))
        w.eq(
            f"{label} element-wise cross-covariance with {name}",
            measure.kernels[s, q].elwise(x, x2),
            w.diag(lin_cov(w, lin, lq, x, x2, prefix)),
        )
        w.eq(
            f"{label} cross-covariance with {name} at equal inputs",
            measure.kernels[q, s](x),
            lin_cov(w, lq, lin, x, x, prefix),
        )


def touch(w, measure, ps):
    """Look up some entries beforehand, or not."""
    if w.choose("looked up before", False, True):
        for p in ps:
            measure.means[p]
            for q in ps:
                measure.kernels[p, q]
