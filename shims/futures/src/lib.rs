//! The `futures` umbrella crate over the cached futures-util.
pub use futures_util::*;
