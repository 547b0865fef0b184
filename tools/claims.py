"""Claimed checks: id -> (technique, what the check gives and what it trusts)."""
SHIM = " Random draws come from a seedable stand-in for thread_rng (shim/rand), so every verdict is reproducible from VERIF_SEED."
LIN = " rusty-machine is compiled from /repo unmodified against shim/vendor/rulinalg, a from-scratch stand-in for the unfetchable rulinalg revision; what is judged is rusty-machine's own code over that linear algebra." + SHIM
CLAIMS = {
    "C01": ("property-based testing: invariant over generated pools, types and random streams, with shrinking", "Every generated sample is checked for size and distinct positions; pools go up to four million, all sizes up to 1100 one by one; what needs a larger input is not reached." + SHIM),
    "C02": ("statistical property-based testing: generated sizes, chi-square and exact binomial bounds against the uniform law", "Rejects biases that move an inclusion frequency, a gap length, a relation to an earlier sample (lags up to 4096) or a repetition rate by more than about seven standard deviations of the counts taken; smaller biases are not seen." + SHIM),
    "C03": ("property-based testing: permutation invariant over generated slices and element types", "Multisets are compared exactly, by bit pattern for floats; all lengths up to 1100 one by one, sampled ones up to four million; what needs a longer array is not reached." + SHIM),
    "C04": ("statistical property-based testing: generated lengths, chi-square and exact binomial bounds against the uniform law", "Complete permutations are counted up to 6 elements, pair positions up to 48, blocks of positions up to 140000 elements, relations to earlier shuffles at lags up to 4096; subtler biases are not seen." + SHIM),
    "C05": ("property-based testing: generated arguments against closed-form references, numerical slopes, round trips and monotonicity", "Compared with references to 1e-10 or better; differences below the tolerances are not seen."),
    "C06": ("property-based testing: generated rates and arguments against the closed forms and numerical integration", "Compared to 1e-9 or better, relative for densities."),
    "C07": ("property-based testing: generated parameters and arguments against the normal law, differential between constructors", "pdf and logpdf compared to 1e-9 or better; the cdf only to its documented accuracy (0.0035)."),
    "C08": ("statistical property-based testing: generated parameters, Kolmogorov-Smirnov, moments, tail counts and serial correlation against the declared law", "p below 1e-9 rejects; deviations smaller than the resolution of the sample sizes are not seen." + SHIM),
    "C10": ("property-based testing: generated kernels, parameters, vectors and point sets against closed forms, symmetry, algebraic laws and eigenvalues of Gram matrices", "Values are compared within the error of rounding their inputs; indefiniteness below 1e-9 of the largest eigenvalue is not seen." + LIN),
    "C11": ("property-based testing: generated outputs and targets against loss formulas, numerical derivatives and minimality at perfect predictions", "Costs to 1e-10, gradients to the accuracy of numerical differentiation; outputs of exactly 0 or 1 under cross entropy are outside of the domain." + LIN),
    "C12": ("property-based testing: generated weights and windows against formulas and numerical slopes", "The L2 cost, which is not squared and pinned so by a unit test, is a known finding; any other deviation is reported." + LIN),
    "C13": ("model-based property testing: a recording model answers with generated costs and gradients and every call is compared with the update rule; statistical test of row orders", "Whole histories of up to some 40 gradient calls are compared step by step." + LIN),
    "C14": ("property-based testing: generated smooth functions, starts and settings; invariants over the history of evaluations", "Convergence only to a gradient of 1e-3 on the families generated." + LIN),
    "C42": ("model-based property testing: a transcription of the published algorithm run on generated functions, starts and settings; the points of evaluation are compared one by one", "Up to 60 evaluations, as far as rounding errors, seen from perturbed starts, have not grown to 1e-7." + LIN),
    "C16": ("property-based testing: generated designs; orthogonality of residuals, recovery of known coefficients, metamorphic equivariance", "Designs up to a condition number of 1e7." + LIN),
    "C17": ("property-based testing: optimisers of the harness record what they are handed; generated data against a Newton fit", "Fits only where the maximum likelihood exists and is moderate." + LIN),
    "C18": ("property-based testing: generated data against a damped Newton maximum likelihood fit, four families, and families of the harness with arbitrary links against the estimating equations", "Predictions to 1e-5; only where the maximum likelihood exists and is moderate." + LIN),
    "C19": ("property-based testing: generated class data against the model's formulas; metamorphic relabelling; failed trainings in histories", "Gaussian features of zero variance within a class are outside of the domain." + LIN),
    "C20": ("property-based testing: generated separable data; kernels of the harness read the coefficients off the predictions and compare them with the Pegasos rule", "Margins and iteration numbers are chosen such that separation is certain; the objective is compared to within 0.08." + LIN),
    "C21": ("property-based testing: generated data, kernels, means and noise against the closed-form posterior by elimination", "Kernel matrices up to a condition number of 1e7." + LIN),
    "C22": ("property-based testing: generated architectures against a reference forward pass; recording optimiser; statistical test of initial weights", "Up to six layers of width four, more in the large sections." + LIN),
    "C23": ("property-based testing: generated architectures against exact derivatives by dual numbers", "Up to six layers of width four, more in the large sections; the L2 cost as in the known finding of C12." + LIN),
    "C24": ("differential property-based testing: three search structures against a sorted scan over generated geometries", "Up to 600 rows of six columns (more in the large section)." + LIN),
    "C25": ("property-based testing: generated labelled points against all admissible majority votes", "Up to 60 rows, more in the large section; ties in distance and votes admit every admissible answer." + LIN),
    "C26": ("model-based property testing: a reference Lloyd iteration step by step; cost invariant; statistical tests of the initialisers", "Cases decided by a tie in distance are skipped." + LIN),
    "C27": ("model-based property testing: a reference EM step applied to the observed state before each iteration; invariants of memberships", "Up to three components and dimensions, more in the large sections; covariances of condition below 1e8." + LIN),
    "C28": ("model-based property testing: reference clusters by definition, sequences of operations, reordering", "Distances within 1e-9 of epsilon that are not exact are skipped." + LIN),
    "C29": ("property-based testing: eigenvectors by an independent Jacobi method, invariants of projections, reordering", "Up to ten rows and five columns, more in the large sections; directions only where eigenvalues differ." + LIN),
    "C30": ("property-based testing: generated tables against the affine map; round trips", "To rounding error; ranges whose width overflows are not reached." + LIN),
    "C31": ("property-based testing: generated tables against mean and deviation; round trips", "To 1e-8." + LIN),
    "C32": ("property-based testing: generated rows and norms; unit norm, direction, idempotence", "To 1e-12." + LIN),
    "C33": ("property-based testing: permutation invariant over generated matrices; statistical test of all orders of up to five rows", "p below 1e-9 rejects." + LIN),
    "C34": ("property-based testing: generated label lists against direct counts; transposition, reordering, refusals", "Exact." + LIN),
    "C35": ("property-based testing: generated labels and matrices against direct counts and sums; refusals", "Where a denominator is zero any value in [0,1] or NaN is accepted." + LIN),
    "C36": ("model-based property testing: a recording model with injected failures; partition invariants; statistical test of fold membership", "Up to 120 rows step by step, up to 6000 in the large section, folds of up to 70000 rows by blocks; p below 1e-9 rejects." + LIN),
    "C37": ("property-based testing: random rows and loads against the published tables", "Every row is visited many times in each run; the fixtures are checked by hand against published means." + LIN),
    "C38": ("stateful property-based testing: generated models, trainings and mismatched shapes; nothing but a refusal is accepted", "A panic counts as refusal." + LIN),
    "C39": ("stateful differential property-based testing: a model with a history of trainings against a new one under the same random stream", "Predictions must be bit for bit the same." + LIN),
    "C40": ("metamorphic property-based testing: batches against single rows, repetitions and orders", "To 1e-12." + LIN),
    "C41": ("metamorphic property-based testing: training on the rows in two orders", "To 1e-5 for fits by iteration, 1e-7 otherwise; ties and badly conditioned fits are left out." + LIN),
    "C44": ("metamorphic property-based testing: the same data in other units and at another origin, under the same random stream", "Bit for bit where powers of two change no digit, to 1e-6 otherwise; badly conditioned fits and nearly singular mixtures are left out." + LIN),
    "C45": ("metamorphic property-based testing: the same data with its columns in two orders, and with a constant column", "To 1e-5 for fits by iteration, 1e-7 otherwise; ties, indistinct directions, badly conditioned fits and nearly singular mixtures are left out." + LIN),
    "C43": ("stateful property-based testing: generated sequences of misuse with traits that lie, run natively with checked unchecked accesses and under Miri, which judges every memory access; the cases of the other checks under Miri", "Small sizes under the interpreter (up to five above the least). Aliasing counts only where Stacked and Tree Borrows are both broken." + LIN),
}
NOT_APPLICABLE = {}
NOTES = "check.sh builds the harness from /repo's working tree and runs one property; --replay FILE reruns a recorded failure. See DESIGN.md."
