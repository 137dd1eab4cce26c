//! A drop-in `std` whose hash collections iterate in an order the model
//! checker decides.
//!
//! The crate under test is compiled, unmodified, with this crate in place of
//! `std` (`[dependencies] std = { package = "vstd" }`), so every
//! `std::collections::HashMap` / `HashSet` it names resolves to the controlled
//! types below.  Everything else is re-exported from the real `std`.
//!
//! Fidelity: an element is found iff its 64-bit hash is equal AND it compares
//! equal, exactly the contract the real table implements (the real table looks
//! at a 7-bit tag of the hash first, so keys that are `==` with different
//! hashes are found only by accident there; here they are never found).
pub use std::*;

pub mod ctl;

pub mod collections {
    pub use std::collections::*;
    pub mod hash_map {
        pub use crate::map::{
            Drain, Entry, ExtractIf, HashMap, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys,
            OccupiedEntry, RandomState, VacantEntry, Values, ValuesMut,
        };
        pub use std::collections::hash_map::DefaultHasher;
    }
    pub mod hash_set {
        pub use crate::set::{
            Difference, Drain, HashSet, Intersection, IntoIter, Iter, SymmetricDifference, Union,
        };
    }
    pub use crate::map::HashMap;
    pub use crate::set::HashSet;
}

mod map;
mod set;
