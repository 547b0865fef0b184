//! Offline stand-in for `num` 0.1 (default-features = false): it re-exports num-traits.
pub use num_traits::*;
pub mod traits {
    pub use num_traits::*;
}
pub mod cast {
    pub use num_traits::cast::*;
}
pub mod float {
    pub use num_traits::float::*;
}
