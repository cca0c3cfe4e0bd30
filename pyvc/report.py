"""What every proof rests on."""

TRUSTED = [
    "pyvc (this verifier): path exploration, normal forms of matrix algebra (rules in DESIGN.md; the identities behind them are proved in lemmas/Rules.lean, their implementation is tested by tools/fuzz_terms.py), z3 for sizes and path conditions",
    "contracts of the primitives of LAB (pyvc/symlab.py): addition, products, Cholesky factors, inverses, concatenation, indexing, ... on symbolic arrays",
    "CPython 3.12; plum, matrix, mlkernels and algebra are executed, not assumed",
]
ASSUMPTIONS = [
    "machine arithmetic is treated as real arithmetic; the numerical regulariser B.epsilon is zero; data types are ignored",
    "matrices that are inverted or factorised are positive definite (nonsingular)",
    "positivity of variances needed to drop max(., 0) is registered by the contract that states it",
]
