"""Test the rewriting rules of pyvc/terms.py: random expressions, built with the symbolic primitives, against NumPy.

    /opt/venv/bin/python tools/fuzz_terms.py [runs] [seed]

An expression is built operation by operation on symbolic matrices; afterwards a concrete interpretation of the atoms
is chosen, every operation is repeated with NumPy, and the normal forms are evaluated.  They must agree.
"""
import os
import random
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import numpy as np

from pyvc import core, evalnum, symlab, terms as t

symlab.install()
from pyvc.world import SymWorld

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


class Fuzz:
    def __init__(self, rng, length):
        self.rng, self.length = rng, length

    def run(self, c):
        rng = random.Random(self.rng)
        w = self.w = SymWorld(c, "fuzz")
        nodes = self.nodes = []  # (symbolic polynomial, function that computes it with NumPy or None, arguments)
        import lab as B

        dims = [w.dim("n"), w.dim("m"), 1]

        def add(x, f=None, *args, pd=False):
            if isinstance(x, symlab.SymArr):
                x = w.col(x)
            if len(x.p.t) > 12 or sum(map(len, x.p.t)) > 60:
                return
            nodes.append((x, f, args, pd))

        for i in range(2):
            add(w.mat(f"A{i}", dims[rng.randrange(2)], dims[rng.randrange(3)]))
        add(w.pd("P", dims[0]), pd=True)
        add(w.pd("Q", dims[1]), pd=True)
        add(w.col(w.vec("v", dims[0], positive=True)))
        add(w.col(w.vec("u", dims[1])))
        x, y = w.input("x", dims[0], 2), w.input("y", dims[1], 2)
        self.inputs, self.mask = [x, y], None
        w.law("p", "q")
        add(w.K("p", "p", x, x) + w.pd("N", dims[0]), pd=True)
        add(w.K("p", "q", x, y))
        add(w.M("p", x))
        add(w.number(2) * w.ones(dims[0], 1))
        add(w.eye(dims[0]), pd=True)
        if rng.random() < 0.5:
            if rng.random() < 0.5:
                add(w.selection(w.mask("mask2", dims[0], dims[1])))
            else:
                self.mask = w.mask("mask", dims[0])
                add(w.selection(self.mask))
        s = w.num("s", positive=True)
        add(w.col(s))
        ni, steps = 0, 0
        while len(nodes) < self.length and steps < 200:
            steps += 1
            i, j = rng.randrange(len(nodes)), rng.randrange(len(nodes))
            if rng.random() < 0.6:
                i = rng.randrange(max(0, len(nodes) - 8), len(nodes))
            (a, _, _, pa), (b, _, _, pb) = nodes[i], nodes[j]
            n, m = a.p.n, a.p.m
            same = (n, m) == (b.p.n, b.p.m)
            which = rng.choice(
                "add sub mul had mul mul T inv chol root diag dg trace logdet quad sum blocks stack sub row scale recip sqrt congruence lowrank slice kernel kernel mean invch sel sumaxis take pdblocks solve input".split()
            )
            try:
                self.step(which, rng, add, a, b, i, j, n, m, same, pa, pb, B)
            except core.Unsupported:
                continue
            except (ValueError, AssertionError, TypeError, KeyError, IndexError) as e:
                print("EXCEPTION", which, repr(e)[:200], "\n    ", repr(a.p)[:300], "\n    ", repr(b.p)[:300])
                if os.environ.get("TRACE"):
                    raise

    def step(self, which, rng, add, a, b, i, j, n, m, same, pa, pb, B):
        w = self.w
        if which == "add" and same:
            add(a + b, np.add, i, j, pd=pa and pb)
        elif which == "sub" and same:
            add(a - b, np.subtract, i, j)
        elif which == "mul" and m == b.p.n:
            add(B.matmul(a, b), np.matmul, i, j)
        elif which == "had" and same:
            add(w.had(a, b), np.multiply, i, j)
        elif which == "T":
            add(w.T(a), np.transpose, i, pd=pa)
        elif which == "inv" and pa:
            add(w.inv(a), np.linalg.inv, i, pd=True)
        elif which == "chol" and pa:
            add(w.chol(a), np.linalg.cholesky, i)
        elif which == "invch" and pa:
            add(B.triangular_solve(w.chol(a), w.eye(a.shape[0])), lambda x: np.linalg.inv(np.linalg.cholesky(x)), i)
        elif which == "root" and pa:
            def root(x):
                e, v = np.linalg.eigh(x)
                return (v * np.sqrt(e)) @ v.T

            add(w.root(a), root, i, pd=True)
        elif which == "diag" and n == m:
            add(w.diag(a), lambda x: np.diag(x).reshape(-1, 1), i)
        elif which == "dg" and m == t.ONE:
            add(w.dg(a), lambda x: np.diag(x[:, 0]), i)
        elif which == "trace" and n == m:
            add(w.col(w.trace(a)), lambda x: np.trace(x).reshape(1, 1), i)
        elif which == "logdet" and pa:
            add(w.col(w.logdet(a)), lambda x: np.linalg.slogdet(x)[1].reshape(1, 1), i)
        elif which == "quad" and m == t.ONE and b.p.n == n and b.p.m == t.ONE:
            add(B.matmul(w.T(a), b), lambda x, y: x.T @ y, i, j)
        elif which == "sum":
            ax = rng.choice([None, 0, 1])
            add(w.col(B.sum(a)) if ax is None else B.reshape(B.sum(a, axis=ax), *((1, -1) if ax == 0 else (-1, 1))) if False else w.col(B.sum(a)), lambda x: np.sum(x).reshape(1, 1), i)
        elif which == "blocks" and n == b.p.n:
            add(B.concat(a, b, axis=1), lambda x, y: np.concatenate([x, y], 1), i, j)
        elif which == "stack" and m == b.p.m:
            add(B.concat(a, b, axis=0), lambda x, y: np.concatenate([x, y], 0), i, j)
        elif which == "scale" and b.p.n == t.ONE and b.p.m == t.ONE:
            add(b * a, lambda y, x: y * x, j, i)
        elif which == "recip" and not a.p.zero:
            add(B.divide(1, a), lambda x: 1 / x, i)
        elif which == "sqrt":
            q = w.had(a, a) + w.ones(*a.shape)
            add(w.sqrt(q), lambda x: np.sqrt(x * x + 1), i)
        elif which == "congruence" and pa and b.p.m == n:
            add(B.matmul(B.matmul(b, a), w.T(b)), lambda x, y: y @ x @ y.T, i, j)
        elif which == "lowrank" and pa and b.p.n == n:
            add(a + B.matmul(b, w.T(b)), lambda x, y: x + y @ y.T, i, j, pd=True)
        elif which == "slice":
            k = w.number(1) if False else 1
            add(w.col(a[:k, :]), lambda x: x[:1, :], i)
        elif which == "kernel":
            x, y = rng.choice(self.inputs), rng.choice(self.inputs)
            p, q = rng.choice("pq"), rng.choice("pq")
            if p == q and x is y:
                add(w.K(p, q, x, y) + w.eye(x.shape[0]), ("K", p, q, x, y, True), pd=True)
            else:
                add(w.K(p, q, x, y), ("K", p, q, x, y, False))
        elif which == "mean":
            x = rng.choice(self.inputs)
            add(w.M("p", x), ("M", "p", x))
        elif which == "input" and len(self.inputs) < 7:
            x, y = rng.choice(self.inputs), rng.choice(self.inputs)
            if rng.random() < 0.5:
                self.inputs.append(B.concat(x, y, axis=0))
            elif self.mask is not None and x is self.inputs[0]:
                self.inputs.append(B.take(x, self.mask))
        elif which == "sumaxis":
            if rng.random() < 0.5:
                add(B.expand_dims(B.sum(a, axis=1), axis=1), lambda x: np.sum(x, axis=1, keepdims=True), i)
            else:
                add(B.expand_dims(B.sum(a, axis=0), axis=0), lambda x: np.sum(x, axis=0, keepdims=True), i)
        elif which == "take" and self.mask is not None and n == self.inputs[0].p.n:
            S = w.selection(self.mask)
            self.nodes.append((S, None, (), False))
            add(B.take(a, self.mask), np.matmul, len(self.nodes) - 1, i)
        elif which == "pdblocks" and pa and pb:
            add(B.concat(B.concat(a, w.zeros(a.shape[0], b.shape[0]), axis=1), B.concat(w.zeros(b.shape[0], a.shape[0]), b, axis=1), axis=0),
                lambda x, y: np.block([[x, np.zeros((len(x), len(y)))], [np.zeros((len(y), len(x))), y]]), i, j, pd=True)
        elif which == "solve" and pa and b.p.n == n:
            add(B.cholesky_solve(w.chol(a), b), np.linalg.solve, i, j)
        elif which == "sel" and a.p.n != a.p.m and b.p.m == n:
            add(B.matmul(b, a), np.matmul, j, i)


def compare(c, nodes, seed):
    I = evalnum.Interp(c, seed)
    values, bad = [], []
    for x, f, args, _ in nodes:
        v = I.poly(x.p)
        if f is None:
            want = v
        elif isinstance(f, tuple):
            # Kernels and means of stacked inputs or selected inputs act row by row.
            xs = [I.poly(q.p) for q in f[3 if f[0] == "K" else 2 :] if not isinstance(q, bool)]
            if f[0] == "K":
                want = I.feat(f[1], xs[0]) @ I.feat(f[2], xs[1]).T + (np.eye(len(xs[0])) if f[5] else 0)
            else:
                want = I.fn("fn:mp", 1, xs)
        else:
            want = np.asarray(f(*[values[k] for k in args]))
        values.append(want)
        scale = max(1.0, np.abs(want).max() if want.size else 1)
        if not np.all(np.isfinite(want)) or scale > 1e7:
            values[-1] = want
            return bad, True
        if v.shape != want.shape or (want.size and np.abs(v - want).max() > 1e-6 * scale):
            bad.append((len(values) - 1, f, args, x, v, want))
            return bad, False
    return bad, False


def main(runs, seed):
    count = nodes = skipped = 0
    for r in range(runs):
        z = Fuzz(seed * 100000 + r, int(os.environ.get("LENGTH", 45)))
        script = []

        def run(c):
            z.run(c)
            for k in range(2):
                try:
                    bad, skip = compare(c, z.nodes, r + 7 * k)
                except AssertionError as e:
                    print("ASSERTION run", r, str(e)[:300], getattr(c, "mask_prefix", None))
                    bad = []
                except (core.Unsupported, np.linalg.LinAlgError) as e:
                    script.append(("skip", str(e)))
                    continue
                for n, f, args, x, v, want in bad:
                    print("BAD run", r, "node", n, f, [repr(z.nodes[a][0].p)[:300] for a in args], "\n   ", repr(x.p)[:600], "\n", v, "\n", want)
                script.append(("ok", len(z.nodes)))

        core.explore(run, max_paths=3)
        count += 1
        nodes += sum(n for k, n in script if k == "ok")
        skipped += sum(k == "skip" for k, _ in script)
    print(f"{count} expressions, {nodes} operations compared, {skipped} skipped")


if __name__ == "__main__":
    a = sys.argv[1:]
    main(int(a[0]) if a else 300, int(a[1]) if len(a) > 1 else 1)
