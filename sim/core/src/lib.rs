//! Simulator core: everything here is compiled without instrumentation.
#![cfg_attr(not(feature = "host"), no_std)]
extern crate alloc as heap;
#[cfg(feature = "host")]
pub mod alloc;
#[cfg(not(feature = "host"))]
pub mod bare;
#[cfg(not(feature = "host"))]
pub use bare as seam;
#[cfg(feature = "host")]
pub mod disk;
pub mod model;
pub mod obs;
pub mod ops;
#[cfg(feature = "host")]
pub mod refreader;
#[cfg(feature = "host")]
pub mod refsession;
pub mod rng;
#[cfg(feature = "host")]
pub mod seam;
#[cfg(feature = "host")]
pub mod upcase;
#[cfg(feature = "host")]
mod upcase_table;
#[cfg(feature = "host")]
pub mod writer;

/// What the standard prelude has and core has not.
#[cfg(not(feature = "host"))]
pub mod prelude {
    pub use heap::boxed::Box;
    pub use heap::format;
    pub use heap::string::{String, ToString};
    pub use heap::vec;
    pub use heap::vec::Vec;
}
