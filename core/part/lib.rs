//! The modules of /repo/src/lib.rs that do not use rulinalg, compiled in place
//! and under the same module paths. No code of the project is copied here.

#![deny(missing_docs)]
#![warn(missing_debug_implementations)]

extern crate rand;

/// Module for machine learning.
pub mod learning {
    /// Module for learning tools.
    pub mod toolkit {
        #[path = "/repo/src/learning/toolkit/activ_fn.rs"]
        pub mod activ_fn;
        #[path = "/repo/src/learning/toolkit/rand_utils.rs"]
        pub mod rand_utils;
    }
}

#[cfg(feature = "stats")]
/// Module for computational statistics
pub mod stats {
    /// Module for statistical distributions.
    #[path = "/repo/src/stats/dist/mod.rs"]
    pub mod dist;
}
