pub mod dom;
pub mod engine;
pub mod fam;
pub mod fnc;
pub mod frame;
pub mod geo;
pub mod mesh;
pub mod model;
pub mod refined;
pub mod run;
pub mod sched;

/// The hash collections the implementation was compiled with.
#[cfg(feature = "shim")]
pub use vstd::collections::{HashMap, HashSet};
#[cfg(not(feature = "shim"))]
pub use std::collections::{HashMap, HashSet};
