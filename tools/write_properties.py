"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }
    assert len(title) <= 80, title
    P.append(d)


ME, GPY, FD, OB, RA, LA = (
    "stheno/model/measure.py", "stheno/model/gp.py", "stheno/model/fdd.py",
    "stheno/model/observations.py", "stheno/random.py", "stheno/lazy.py",
)

prop(
    "C01", "Sums, differences and multiples of processes have the exact joint law",
    "If a process is built with the arithmetic operators +, -, unary -, * and / from processes of one measure (added or subtracted), "
    "numbers (anywhere) and functions of the input (added, or multiplying), then under every measure it belongs to its mean function, its covariance function, and its cross-covariance "
    "(in both argument orders) with every process of that measure equal those of the same combination taken pathwise. "
    "This also holds when operands coincide or are correlated, and for literal 0 and 1.",
    ["inputs", "programs", "configurations"],
    "for all measures, all processes in them (with arbitrary means and arbitrary prior covariances with every other process), all numbers/functions, all input locations, all operand orders and aliasings",
    "The tests compare a few fixed EQ/Matern kernels at a handful of points, mostly against the covariance with one operand; they do not cover every third process, aliasing of operands, or both argument orders.",
    [ME, GPY, RA, LA],
    [("measure-level construction of sums and multiples", ME + ": sum, mul"), ("operators", GPY + ": GP.__add__, __mul__; " + RA + ": Random"), ("rule-based covariances", LA)],
    observe=["measure.means[p]", "measure.kernels[p, q]", "p.mean", "p.kernel"],
)
prop(
    "C02", "Input operations on a process have the exact joint law",
    "Shifting, stretching, selecting input dimensions of, input-transforming or differentiating a process f gives a process g such that, under every measure it belongs to, the mean, "
    "the covariance, and the cross-covariances with every process of that measure (in both argument orders) are those of g(x) = f(x - c), f(x / s), f(x[dims]), f(t(x)), or the partial derivative of f. "
    "The finite-difference derivative approximation is the corresponding linear combination of shifted copies of f.",
    ["inputs", "programs", "configurations"],
    "for all measures, all processes and third processes, all parameters of the operation, all inputs, including inputs of several dimensions",
    "Tests use fixed kernels and single parameters, and compare against a re-implementation with the same kernel operations rather than against the pathwise definition for an arbitrary third process.",
    [ME, GPY],
    [("measure-level input operations", ME + ": shift, stretch, select, transform, diff"), ("process-level operations", GPY + ": shift, stretch, select, transform, diff, diff_approx")],
    observe=["measure.means[p]", "measure.kernels[p, q]"],
)
prop(
    "C03", "A measure is one coherent joint law that constructions only extend",
    "In a measure the cross-covariance between any two of its processes is defined, and exchanging the two processes (and inputs) transposes it. "
    "Adding a process - independent, custom, copied from the measure or derived - never changes the mean or covariance of processes already there. "
    "Independently added processes have zero cross-covariance with everything added before, a process obtained by applying a measure to a process has exactly that process's law and cross-covariances, and custom processes follow the given mean, kernel and rules.",
    ["inputs", "programs", "histories"],
    "for all measures reachable by any sequence of constructions, all pairs of processes, all inputs, whether or not the entries were already looked up",
    "Tests inspect single entries after short fixed constructions; the guarantee is a frame condition over all entries and all construction sequences.",
    [ME, LA],
    [("process registration", ME + ": _update, _add_p, add_gp, add_independent_gp, __call__"), ("rule domains", LA + ": add_left_rule, add_right_rule")],
    state=[("means, kernels", "the law of the measure", ME), ("_pids", "processes of the measure", ME)],
    observe=["measure.means[p]", "measure.kernels[p, q]"],
)
prop(
    "C04", "Lazy vectors and matrices resolve every index to exactly one stable value",
    "Looking up an index that was assigned returns the latest assigned value; otherwise it returns what the first applicable rule builds, where general rules come before left rules before right rules and earlier-added rules before later ones. "
    "The value of an index is built at most once and every later lookup returns the same object; a rule applies to exactly the indices its domain contained when it was added; and an index no rule covers raises RuntimeError without changing anything. "
    "Indices are resolved by object identity or by their integer identifier, interchangeably.",
    ["histories", "inputs"],
    "for all sequences of assignments, rule additions and lookups (including lookups from within a builder), all numbers of rules, all domains, all indices",
    "Tests exercise a few rules with disjoint domains in one order.",
    [LA],
    [("store and memoisation", LA + ": LazyTensor._get, _set"), ("rule search", LA + ": LazyVector._build, LazyMatrix._build"), ("key resolution", LA + ": _expand_key, _resolve_index")],
    state=[("_store", "values assigned or built", LA), ("_rules, _left_rules, _right_rules", "rules with snapshot domains", LA)],
    observe=["LazyVector[...]", "LazyMatrix[...]"],
)
prop(
    "C05", "Every result process belongs to exactly the measures its operands share",
    "A process computed from operand processes is associated to exactly those measures (prior and posteriors) to which all operands are associated, its own measure (which gives its mean and kernel) is the measure in which the operands were constructed, "
    "and conditioning associates exactly the processes the measure has at that time with the posterior. "
    "Combining processes that were constructed in different measures raises an error and leaves the processes, memberships and laws that the measures had as they were.",
    ["histories", "configurations"],
    "for all operand processes, any number of posteriors taken at any time before or after constructing the operands, all operations, every memory layout (object addresses)",
    "Tests use at most a prior and one posterior, where set iteration order happens to be benign; the guarantee must hold for any number of measures and any object addresses.",
    [GPY, ME],
    [("measure groups", GPY + ": assert_same_measure, intersection_measure_group, cross"), ("operators looping over measures", GPY), ("posterior registration", ME + ": condition, _add_p")],
    state=[("measures of a process", "construction measure first", GPY)],
    observe=["p.measure", "p.mean", "posterior(p)", "measure.ps"],
)
prop(
    "C06", "Leaving a measure's with-block restores the previous default measure",
    "Inside a with-block of a measure, processes created without an explicit measure attach to that measure; after the block, however it ends and however blocks were nested (including re-entering the same measure), the default is what it was before the block. "
    "Without any default such a process gets a fresh measure of its own, and an explicitly given measure always wins.",
    ["histories", "programs"],
    "for all properly nested sequences of with-blocks over any measures (repeats included), any exception leaving any block",
    "Tests enter one measure at a time; nesting, re-entrance and exceptions are not sampled.",
    [ME, GPY],
    [("context manager", ME + ": __enter__, __exit__"), ("measure resolution", GPY + ": GP.__init__")],
    state=[("Measure.default", "current default", ME)],
    observe=["Measure.default", "GP(kernel).measure"],
)
prop(
    "C07", "Names and processes of a measure form a consistent two-way dictionary",
    "In a measure every name refers to at most one process and every process has at most one name, and lookup by name and by process are mutually inverse. "
    "Renaming a process frees its old name; giving a name that another process holds raises RuntimeError and leaves all names as they were, in every measure of the process. "
    "Looking up an unknown name or an unnamed process raises KeyError.",
    ["histories", "inputs"],
    "for all sequences of (accepted or rejected) naming operations in any number of measures",
    "Tests name two processes once and check one rejection; the state after a rejection and after longer sequences is not checked.",
    [ME, GPY],
    [("naming", ME + ": name, __getitem__"), ("process-level naming", GPY + ": GP.name, GP.__init__")],
    state=[("_gps_by_name, _names_by_gp", "the two directions", ME)],
    observe=["measure[name]", "measure[p]", "p.name"],
)
prop(
    "C08", "Conditioning gives the exact Gaussian conditional for every pair of processes",
    "Under the posterior of observations y = f(x) + noise, the mean of every process p of the measure is m_p + K_pf (K_ff + noise)^-1 (y - m_f), and the covariance between every pair p, q is K_pq - K_pf (K_ff + noise)^-1 K_fq, evaluated under the measure being conditioned; all call styles (distribution and values, pair, list of pairs, observations object, `|` on measure or process) agree. "
    "With no observations the posterior equals the prior. "
    "Conditioning leaves the prior unchanged, and one observations object conditions several measures correctly in any order.",
    ["inputs", "histories", "configurations"],
    "for all measures (also posteriors), processes, observation processes, noises, inputs and values, and every order in which entries and measures are looked up",
    "Tests compare a handful of numeric points for single EQ processes against the same formula or rely on interpolation; they do not cover arbitrary pairs, or reuse across measures.",
    [OB, ME, GPY],
    [("posterior formulas", OB + ": Observations.posterior_kernel, posterior_mean, K_x"), ("posterior construction", ME + ": condition, __or__"), ("shorthand", GPY + ": condition, __or__")],
    state=[("_K_x", "kernel matrix per measure", OB)],
    observe=["posterior.means[p]", "posterior.kernels[p, q]", "(p | obs).mean"],
)
prop(
    "C09", "Missing observations are exactly equivalent to leaving them out",
    "Observations whose values contain NaN behave, for the posterior (exact or inducing-point), the ELBO and the log-density, exactly as if the missing entries and the matching inputs and noise entries had been left out beforehand. "
    "This holds for every kind of noise, for several observed processes at once and for multi-output processes.",
    ["inputs"],
    "for all patterns of missing values (none, some, all), all noises (none, scalar, vector, matrix), all inputs, one or several processes, nested inputs",
    "Tests use one fixed pattern per case and scalar or vector noise.",
    [OB, FD, RA, "stheno/mo/kernel.py"],
    [("dropping missing data", OB + ": AbstractObservations.__init__"), ("masked distributions", FD + ": take, _take_x; stheno/mo/kernel.py: _take_x"), ("log-density", RA + ": Normal.logpdf")],
    observe=["obs.fdd", "obs.y", "posterior.means[p]", "logpdf"],
)
prop(
    "C10", "Joint operations on several processes use one measure and keep block order",
    "Combining several distributions or observation pairs gives the distribution of the stacked processes: blocks in argument order, cross-covariances from the processes' joint law, noises block-diagonal, values stacked alike. "
    "Log-densities and samples computed through a measure (and distributions to which a measure is applied) use the law of that measure, posteriors included, whatever measure the processes were constructed in; a joint sample is returned as one block per argument, in order, each of that argument's size.",
    ["inputs", "configurations"],
    "for all numbers of processes, sizes, noises, values, all measures (prior and posteriors), repeated processes included",
    "Tests check log-densities for two processes and shapes of samples; correlation between blocks, order and the governing measure are only checked indirectly.",
    [OB, ME, GPY],
    [("combination", OB + ": combine"), ("sampling and log-density", ME + ": sample, logpdf, __call__"), ("stacking", GPY + ": cross")],
    observe=["measure.sample", "measure.logpdf", "measure(fdd)", "Obs(*pairs)"],
)
prop(
    "C11", "Cartesian products of processes stack outputs block by block",
    "A Cartesian product of processes evaluated at an input is the stack of its member processes at that input, in order: its mean, covariance, variances and cross-covariances with every process are the blocks of the members' joint law. "
    "Given a tuple of member distributions as input, block i uses exactly the i-th process and input, nested products and repeated processes included. "
    "The inferred size always equals the number of rows, and a size that cannot be inferred raises an error instead of yielding a wrong one.",
    ["inputs", "programs", "configurations"],
    "for all numbers and orders of member processes (repeats and nesting included), all inputs and tuples of inputs, all measures",
    "Tests use two processes and compare against manually stacked matrices for one or two kernels.",
    ["stheno/mo/kernel.py", "stheno/mo/mean.py", "stheno/mo/input.py", "stheno/mo/infer.py", "stheno/mo/adk.py", GPY, ME],
    [("multi-output kernel and mean", "stheno/mo/kernel.py, stheno/mo/mean.py"), ("tuple inputs", "stheno/mo/input.py"), ("size inference", "stheno/mo/infer.py"), ("construction", ME + ": cross")],
    observe=["cross(...)(x).mean", ".var", ".var_diag", "measure.kernels[p, q]"],
)
prop(
    "C12", "A process evaluated at inputs is its finite-dimensional law plus noise",
    "p(x, noise) has mean m_p(x) and variance K_p(x, x) plus noise - no noise, a scalar times the identity, a vector on the diagonal, or a matrix as given - and all its views (variance diagonal, joint and diagonal-only mean/variance computations, marginals) agree. "
    "Restricting it with a boolean mask gives the distribution at the selected inputs with the matching sub-block of the noise; anything other than a boolean mask is rejected.",
    ["inputs"],
    "for all processes (also multi-output and posterior), inputs, noises of every kind, masks",
    "Tests check scalar and vector noise for one kernel at a few points and mostly shapes for the rest.",
    [FD],
    [("noise representation", FD + ": _noise_as_matrix"), ("construction", FD + ": FDD.__init__"), ("masking", FD + ": take, _take_x")],
    observe=["fdd.mean", "fdd.var", "fdd.var_diag", "fdd.mean_var", "fdd.marginals()", "B.take(fdd, mask)"],
)
prop(
    "C13", "Every view of a normal distribution agrees, in any order of access",
    "For a normal distribution, however it was given (values, lazily, with or without combined constructors, zero mean implied), mean, variance, variance diagonal, joint mean-and-variance, marginals, dimensionality and the zero-mean test all describe the same distribution: the mean is a column vector, marginals are the mean and diagonal as plain vectors. "
    "What any of them returns does not depend on which were accessed before, and no supplied constructor is evaluated again once its quantity is known.",
    ["histories", "inputs"],
    "for all ways of constructing a normal distribution and all sequences of accesses",
    "Tests access each attribute on a fresh object, or in one fixed order; there are many access orders and construction variants.",
    [RA],
    [("lazy resolution", RA + ": Normal._resolve_mean, _resolve_var, _resolve_var_diag, mean_var, marginals")],
    state=[("_mean, _var, _var_diag, _mean_is_zero", "resolved quantities", RA)],
    observe=["mean", "var", "var_diag", "mean_var", "marginals()", "marginal_credible_bounds()", "dim", "mean_is_zero"],
)
prop(
    "C14", "Densities, entropies and distances of normals equal their closed forms",
    "The log-density, entropy, KL divergence, 2-Wasserstein distance and second moment of normal distributions equal their textbook formulas for the distributions' mean and variance, the credible bounds are mean -/+ 1.96 standard deviations, and diagonalising keeps mean and marginal variances and removes correlations. "
    "Log-densities are computed per column of the argument, with a scalar for a single column.",
    ["inputs"],
    "for all dimensions, means, positive-definite variances (of any structure), arguments with any number of columns, batches included",
    "Tests compare with SciPy for one or two random instances, chiefly in fixed dimension.",
    [RA],
    [("formulas", RA + ": Normal.logpdf, entropy, kl, w2, m2, marginals, marginal_credible_bounds, diagonalise")],
    observe=["Normal.logpdf", "entropy", "kl", "w2", "m2"],
)
prop(
    "C15", "Affine maps and samples of normals follow the distribution's law",
    "Adding a normal or a constant, negating, subtracting, multiplying or dividing by a scalar, and left or right matrix multiplication give the normal with the transformed mean and variance. "
    "A sample is the mean plus a square root of the (noise-augmented) variance times standard normal draws, one column per sample, drawn from and advancing the given random state; without a state it uses and advances the global one.",
    ["inputs", "histories"],
    "for all normals, constants, scalars, matrices, numbers of samples, noises and random states",
    "Tests check a few arithmetic results for one instance and sampling only statistically, with wide tolerances.",
    [RA],
    [("arithmetic", RA + ": Random, Normal.__add__, __mul__, lmatmul, rmatmul"), ("sampling", RA + ": Normal.sample")],
    observe=["Normal arithmetic", "Normal.sample"],
)
prop(
    "C16", "Inducing-point conditioning is the exact optimum of its approximation",
    "Conditioning on inducing-point observations (VFE, FITC, DTC) gives for every process and pair of processes the posterior of the corresponding approximate model in closed form, and the reported ELBO is that approximation's objective: the log-density of the data under the low-rank (FITC: diagonally corrected) variance, minus the trace penalty for VFE. "
    "It is evaluated under the measure it is applied to, also when one object is used with several measures in any order; observation noise that is not diagonal is rejected.",
    ["inputs", "histories", "configurations"],
    "for all measures, processes, inducing points (with noise, several processes), data, diagonal noises, methods, and orders of access",
    "Tests compare against the exact GP when inducing points equal the data and check one ELBO value per method against a fixed formula.",
    [OB],
    [("computation", OB + ": AbstractPseudoObservations._compute"), ("caches", OB + ": K_z, elbo, mu, A"), ("posterior", OB + ": posterior_kernel, posterior_mean")],
    state=[("_K_z, _elbo, _mu, _A", "results per measure", OB)],
    observe=["obs.elbo(measure)", "posterior.means[p]", "posterior.kernels[p, q]", "measure.logpdf(obs)"],
)
prop(
    "C17", "Products of processes are moment matched",
    "The product of two processes of a measure has the exact mean and covariance functions of the pathwise product, and its cross-covariance with every process that was in the measure before is m_1 k_2 + m_2 k_1 (in both argument orders). "
    "This holds when the factors are independent, correlated or the same process, and with arbitrary means.",
    ["inputs", "programs"],
    "for all measures, factor processes (aliased or correlated), means, third processes and inputs",
    "Tests check a product of independent zero-mean or constant-mean processes at a few points only.",
    [ME, GPY],
    [("product", ME + ": mul"), ("operator", GPY + ": GP.__mul__")],
    observe=["(p1 * p2).mean", "(p1 * p2).kernel", "measure.kernels[p1 * p2, q]"],
)

with open("/verif/properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
