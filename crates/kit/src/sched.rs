//! Exploring one case under the schedules of a plan: every hash-iteration
//! choice the code under test makes is decided here.
use crate::dom::{Plan, Sched};
use crate::engine::*;
use crate::run;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use vstd::ctl;

pub fn policy_alt(policy: u32, n: u32) -> Option<u32> {
    match policy {
        0 => Some(0),
        1 => Some(if n >= 3 { n } else { n - 1 }),
        _ => None,
    }
}

/// Calls `go` with every schedule of the plan; `go(schedule, record)` returns
/// the sizes of the choice points met.
pub fn each<B>(plan: &Plan, o: &mut Obs, go: &mut dyn FnMut(&Sched, bool, &mut Obs) -> Result<Vec<u32>, B>) -> Result<(), B> {
    match plan {
        Plan::One(s) => {
            go(s, false, o)?;
        }
        Plan::Base(n) => {
            let n = if cfg!(feature = "shim") { *n } else { 1 };
            for p in 0..n {
                go(&Sched::base(p), false, o)?;
            }
        }
        Plan::Deviate { policy, depth } => {
            if !cfg!(feature = "shim") {
                for _ in 0..8 {
                    go(&Sched::base(0), false, o)?;
                }
                return Ok(());
            }
            // depth-first over the points after the last deviation
            let mut stack = vec![Sched::base(*policy)];
            while let Some(s) = stack.pop() {
                let leaf = s.dev.len() as u32 >= *depth;
                let sizes = go(&s, !leaf, o)?;
                o.count("schedules", 1);
                if leaf {
                    continue;
                }
                let from = s.dev.last().map(|d| d.0 + 1).unwrap_or(0);
                for (i, &n) in sizes.iter().enumerate().skip(from as usize) {
                    for alt in 0..ctl::alternatives(n) {
                        if policy_alt(*policy, n) == Some(alt) {
                            continue;
                        }
                        let mut d = s.clone();
                        d.dev.push((i as u32, alt));
                        stack.push(d);
                    }
                }
            }
        }
    }
    Ok(())
}

pub trait Planned {
    fn plan(&self) -> &Plan;
    fn set_plan(&mut self, p: Plan);
}

/// What one execution reported: operations applied and a fingerprint of the outcome.
pub struct Ran {
    pub ops: u64,
    pub state: u64,
}

/// A property judged on single executions, each under one schedule.
pub struct PlanCheck<C: 'static> {
    pub id: &'static str,
    pub bounds: fn(Tier) -> String,
    pub gen: fn(Tier, &mut dyn FnMut(C)),
    /// executes the implementation once and judges it; runs inside the fence
    pub run: fn(&C) -> Result<Ran, String>,
    pub assume: &'static [&'static str],
}

impl<C: Planned + Serialize + DeserializeOwned + Clone + Send + Sync + Debug + 'static> Check for PlanCheck<C> {
    type Case = C;
    fn id(&self) -> &'static str {
        self.id
    }
    fn bounds(&self, t: Tier) -> String {
        (self.bounds)(t)
    }
    fn assumptions(&self) -> Vec<String> {
        self.assume.iter().map(|s| s.to_string()).collect()
    }
    fn enumerate(&self, t: Tier, emit: &mut dyn FnMut(C)) {
        (self.gen)(t, emit)
    }
    fn check(&self, c: &C, o: &mut Obs) -> Result<(), Bad<C>> {
        each(c.plan(), o, &mut |s, record, o| {
            let mut d = c.clone();
            d.set_plan(Plan::One(s.clone()));
            run::set_current_lazy(&d);
            ctl::begin(&s.to(), record);
            let r = run::guarded(run::STEP_LIMIT, || (self.run)(c));
            let tr = ctl::end();
            o.runs += 1;
            o.trans += tr.points as u64;
            if tr.diverged {
                o.count("diverged_schedules", 1);
            }
            match r {
                Ok(Ok(x)) => {
                    o.trans += x.ops;
                    o.state(&x.state);
                    Ok(tr.sizes)
                }
                Ok(Err(msg)) => Err(Bad { msg, case: Some(d) }),
                Err(f) => Err(Bad { msg: f.to_string(), case: Some(d) }),
            }
        })
    }
}
