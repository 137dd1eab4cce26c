//! A property decided over an enumerated input space by a plain function.
use crate::engine::*;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;

pub struct FnCheck<C: 'static> {
    pub id: &'static str,
    pub bounds: fn(Tier) -> String,
    pub gen: fn(Tier, &mut dyn FnMut(C)),
    pub check: fn(&C, &mut Obs) -> Result<(), String>,
    pub assume: &'static [&'static str],
}

impl<C: Serialize + DeserializeOwned + Clone + Send + Sync + Debug + 'static> Check for FnCheck<C> {
    type Case = C;
    fn id(&self) -> &'static str {
        self.id
    }
    fn bounds(&self, t: Tier) -> String {
        (self.bounds)(t)
    }
    fn assumptions(&self) -> Vec<String> {
        self.assume.iter().map(|s| s.to_string()).collect()
    }
    fn enumerate(&self, t: Tier, emit: &mut dyn FnMut(C)) {
        (self.gen)(t, emit)
    }
    fn check(&self, c: &C, o: &mut Obs) -> Result<(), Bad<C>> {
        (self.check)(c, o).map_err(|m| Bad { msg: m, case: None })
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*).into()); } };
}
