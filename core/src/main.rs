//! Checks of the parts of rusty-machine that need no linear algebra.
mod activ;
mod dist;
mod sampling;

use engine::{sec, Check};

static CHECKS: &[Check] = &[
    Check {
        id: "C01",
        rule: "pools of 0..400 elements (and up to four million, one past 2^24, and of units past 2^32; distinct positions, duplicates, floats by bit pattern, wide structs), any sample size up to one past the pool, a fresh random stream per case; non-trivial: 0 < k < n",
        sections: &[
            sec("element-types", 10000, 300000, sampling::every_type),
            sec("positions", 400000, 12000000, sampling::positions),
            sec("payloads", 60000, 2000000, sampling::payloads),
            sec("oversized", 6000, 200000, sampling::oversized),
            sec("contexts", 2000, 40000, sampling::contexts_reservoir),
            sec("large-pools", 300, 12000, sampling::large_pools),
            sec("huge-pools", 1, 20, sampling::huge_pool),
            sec("beyond-32-bits", 1, 20, sampling::beyond_32_bits),
        ],
        assumptions: &["thread_rng is replaced by a seedable stream (shim/rand)"],
    },
    Check {
        id: "C02",
        rule: "for each pool size and sample size drawn, many samples are taken with successive random draws and their frequencies compared with the uniform law, alone and together with those of earlier samples, after refused samples, in new threads and several at once (chi-square, p < 1e-9 rejects; binomial bounds of 7 sigma); non-trivial: 0 < k < n",
        sections: &[
            sec("small-subsets", 300, 6000, sampling::subset_law),
            sec("inclusion", 150, 3000, sampling::inclusion_law),
            sec("blocks-large", 96, 2400, sampling::inclusion_blocks),
            sec("gaps", 8, 240, sampling::gap_law),
            sec("successive-calls", 40, 600, sampling::reservoir_independent),
            sec("new-threads", 3, 30, sampling::fresh_threads_reservoir),
            sec("history", 24, 600, sampling::reservoir_history),
            sec("repeats", 1, 20, sampling::reservoir_repeats),
            sec("huge", 1, 20, sampling::huge_pool),
            sec("concurrent", 3, 30, sampling::concurrent_samples),
        ],
        assumptions: &["thread_rng is replaced by a seedable stream (shim/rand)", "a correct sampler is rejected with probability below 1e-6 per run; the seed is fixed, so the verdict is reproducible"],
    },
    Check {
        id: "C03",
        rule: "slices of 0..60 elements (and up to four million, one past 2^24, units past 2^32) with distinct or duplicated values, floats compared by bit pattern, owned strings and reference-counted values (in place form), sub-slices; non-trivial: at least 2 elements and the output differs from the input",
        sections: &[
            sec("copying", 200000, 6000000, sampling::fy_copy),
            sec("in-place", 200000, 6000000, sampling::fy_inplace),
            sec("element-types", 10000, 300000, sampling::fy_types),
            sec("owned", 20000, 600000, sampling::fy_owned),
            sec("contexts", 2000, 40000, sampling::contexts_shuffle),
            sec("large", 300, 9000, sampling::fy_large),
            sec("huge", 1, 20, sampling::huge_shuffle),
            sec("beyond-32-bits", 1, 20, sampling::beyond_32_bits),
        ],
        assumptions: &["thread_rng is replaced by a seedable stream (shim/rand)"],
    },
    Check {
        id: "C04",
        rule: "for each length drawn and each of the two shuffles, many shuffles are taken with successive random draws; counts of whole permutations (n<=5), of position-element pairs and of blocks are compared with the uniform law (chi-square, p < 1e-9 rejects); non-trivial: n >= 2",
        sections: &[
            sec("whole-permutations", 80, 1500, sampling::fy_law),
            sec("position-pairs", 120, 2500, sampling::fy_pairs),
            sec("blocks-large", 96, 2400, sampling::fy_blocks),
            sec("successive-calls", 40, 600, sampling::fy_independent),
            sec("new-threads", 3, 30, sampling::fresh_threads_shuffle),
            sec("history", 24, 600, sampling::shuffle_history),
            sec("repeats", 1, 20, sampling::shuffle_repeats),
            sec("huge", 1, 20, sampling::huge_shuffle),
            sec("concurrent", 3, 30, sampling::concurrent_shuffles),
        ],
        assumptions: &["thread_rng is replaced by a seedable stream (shim/rand)", "a correct shuffle is rejected with probability below 1e-6 per run; the seed is fixed, so the verdict is reproducible"],
    },
    Check {
        id: "C05",
        rule: "arguments over the whole useful range of each activation function and far outside it; non-trivial: a finite non-zero argument",
        sections: &[
            sec("values", 1200000, 30000000, activ::values),
            sec("derivatives", 1200000, 30000000, activ::derivatives),
            sec("inverses", 1200000, 30000000, activ::inverses),
            sec("monotone", 1200000, 30000000, activ::monotone),
            sec("extremes", 400000, 3000000, activ::extremes),
        ],
        assumptions: &["reference values come from the platform's exp, tanh and ln"],
    },
    Check {
        id: "C06",
        rule: "rates log-uniform in 1e-4..1e4, arguments from 0 to far in the tail; non-trivial: a positive argument",
        sections: &[
            sec("functions", 1200000, 20000000, dist::exp_functions),
            sec("tails", 80000, 1000000, dist::exp_tails),
            sec("integral", 12000, 100000, dist::exp_integral),
            sec("support", 160000, 1000000, dist::exp_support),
        ],
        assumptions: &[],
    },
    Check {
        id: "C07",
        rule: "means in -1e3..1e3, standard deviations log-uniform in 1e-3..1e3, arguments up to 40 standard deviations away; non-trivial: an argument different from the mean",
        sections: &[
            sec("density", 1200000, 20000000, dist::gauss_density),
            sec("cdf", 1200000, 20000000, dist::gauss_cdf),
            sec("constructors", 160000, 2000000, dist::gauss_constructors),
            sec("default", 80000, 500000, dist::gauss_default),
            sec("integral", 8000, 60000, dist::gauss_integral),
            sec("tails", 240000, 2000000, dist::gauss_tails),
            sec("default-logpdf", 80000, 500000, dist::default_logpdf),
        ],
        assumptions: &["the documented accuracy of the cdf, 0.003 to one significant digit, is checked as 0.0035"],
    },
    Check {
        id: "C08",
        rule: "per case one distribution (constructor and parameters drawn), one generator and one sampling trait; 40000 draws are compared with the declared law (Kolmogorov-Smirnov, p < 1e-9 rejects; moments; lag-1 correlation); every case is non-trivial",
        sections: &[
            sec("exponential", 200, 4000, dist::sample_exp),
            sec("gaussian", 200, 4000, dist::sample_gauss),
            sec("histories", 30, 1000, dist::sample_histories),
            sec("generators", 60, 1000, dist::sample_generators),
            sec("tails", 16, 160, dist::sample_tails),
            sec("extreme-streams", 5000, 200000, dist::sample_extreme),
        ],
        assumptions: &["the generator of the rand crate is trusted"],
    },
];

fn main() {
    engine::main(CHECKS)
}
