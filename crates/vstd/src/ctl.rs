//! The scheduler: which order does each iteration over a hash collection take?
use std::cell::{Cell, RefCell};

/// One run's schedule: a base policy for all iteration points plus a list of
/// deviations `(point index, alternative)` overriding it at single points.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Schedule {
    pub policy: u32,
    pub deviations: Vec<(u32, u32)>,
}

#[derive(Default)]
struct State {
    active: bool,
    sched: Schedule,
    next_dev: usize,
    point: u32,
    record: bool,
    sizes: Vec<u32>,
    bad_alt: bool,
}

thread_local!(static ST: RefCell<State> = RefCell::new(State::of_process()));
impl State {
    /// A program run on its own takes its schedule from VSTD_SCHEDULE:
    /// the base policy, then `point:alternative` for every deviation.
    fn of_process() -> State {
        let Ok(v) = std::env::var("VSTD_SCHEDULE") else { return State::default() };
        let mut it = v.split(' ');
        let policy = it.next().and_then(|p| p.parse().ok()).unwrap_or(0);
        let deviations = it
            .filter_map(|d| {
                let (p, a) = d.split_once(':')?;
                Some((p.parse().ok()?, a.parse().ok()?))
            })
            .collect();
        State { active: true, sched: Schedule { policy, deviations }, ..State::default() }
    }
}

thread_local!(static STEPS: Cell<(u64, u64)> = const { Cell::new((0, 0)) });

/// Message of the panic that ends a run which exceeds its step horizon.
pub const HORIZON: &str = "VSTD-HORIZON";

/// Hash-collection operations the current run may still make (0 = unlimited).
pub fn set_horizon(limit: u64) {
    STEPS.with(|s| s.set((0, limit)));
}
pub fn steps() -> u64 {
    STEPS.with(|s| s.get().0)
}
#[inline]
pub(crate) fn tick() {
    STEPS.with(|s| {
        let (n, l) = s.get();
        s.set((n + 1, l));
        if l != 0 && n >= l && !std::thread::panicking() {
            std::panic::panic_any(HORIZON.to_string());
        }
    })
}

/// What one run saw.
#[derive(Clone, Debug, Default)]
pub struct Trace {
    /// collection size at every iteration point (only sizes >= 2 are points)
    pub sizes: Vec<u32>,
    pub points: u32,
    /// a deviation named an alternative that does not exist (replay diverged)
    pub diverged: bool,
}

pub fn begin(s: &Schedule, record: bool) {
    ST.with(|st| {
        let mut st = st.borrow_mut();
        *st = State { active: true, sched: s.clone(), record, ..State::default() };
    })
}

pub fn end() -> Trace {
    ST.with(|st| {
        let mut st = st.borrow_mut();
        let t = Trace {
            diverged: st.bad_alt || st.next_dev < st.sched.deviations.len(),
            points: st.point,
            sizes: std::mem::take(&mut st.sizes),
        };
        *st = State::default();
        t
    })
}

/// Number of alternatives at a point over a collection of `n` elements:
/// n rotations, plus the reversed order when that is not itself a rotation.
pub fn alternatives(n: u32) -> u32 {
    if n >= 3 { n + 1 } else { n }
}

/// Order for an iteration over `n` elements.
pub(crate) enum Order {
    Rot(usize),
    Rev(usize),
}

pub(crate) fn choose(n: usize) -> Order {
    tick();
    if n < 2 {
        return Order::Rot(0);
    }
    ST.with(|st| {
        let mut st = st.borrow_mut();
        if !st.active {
            return Order::Rot(0);
        }
        let p = st.point;
        st.point += 1;
        if st.record {
            st.sizes.push(n as u32);
        }
        if st.next_dev < st.sched.deviations.len() && st.sched.deviations[st.next_dev].0 == p {
            let alt = st.sched.deviations[st.next_dev].1;
            st.next_dev += 1;
            if alt >= alternatives(n as u32) {
                st.bad_alt = true;
                return Order::Rot(0);
            }
            return if alt as usize == n { Order::Rev(0) } else { Order::Rot(alt as usize) };
        }
        match st.sched.policy {
            0 => Order::Rot(0),
            1 => Order::Rev(0),
            // deterministic mixed policies: rotate by an amount that varies
            // with the policy number and the point
            k => {
                let h = (p as u64 + 1)
                    .wrapping_mul(0x9E37_79B9_7F4A_7C15u64)
                    .wrapping_mul(2 * k as u64 + 1);
                let h = (h ^ (h >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                let r = ((h >> 33) as usize) % n;
                if (h >> 20) & 1 == 0 { Order::Rot(r) } else { Order::Rev(r) }
            }
        }
    })
}

pub(crate) fn permute<T>(v: &mut Vec<T>) {
    match choose(v.len()) {
        Order::Rot(0) => {}
        Order::Rot(r) => v.rotate_left(r),
        Order::Rev(r) => {
            v.reverse();
            v.rotate_left(r);
        }
    }
}
