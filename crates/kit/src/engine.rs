//! The exploration engine: feeds every case of a property's bounded space to
//! worker threads, collects what was covered, writes the evidence file and
//! reports violations with a replay file.
use crate::run;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc::sync_channel;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn deep(self) -> bool {
        self == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough tier
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.deep() { t } else { q }
    }
}

/// What a worker saw.
#[derive(Default)]
pub struct Obs {
    /// executions of the implementation
    pub runs: u64,
    /// implementation steps taken: operations applied plus iteration choices
    pub trans: u64,
    /// distinct (canonical) states reached
    pub states: HashSet<u64>,
    /// named sub-counts
    pub counts: BTreeMap<String, u64>,
}
impl Obs {
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        let mut h = run::Fnv::default();
        t.hash(&mut h);
        if self.states.len() < 8_000_000 {
            self.states.insert(std::hash::Hasher::finish(&h));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
}

/// A failed case: what went wrong, and the narrowed case that shows it.
pub struct Bad<C> {
    pub msg: String,
    pub case: Option<C>,
}
impl<C> From<String> for Bad<C> {
    fn from(msg: String) -> Self {
        Bad { msg, case: None }
    }
}
impl<C> From<&str> for Bad<C> {
    fn from(msg: &str) -> Self {
        Bad { msg: msg.into(), case: None }
    }
}

pub trait Check: Sync {
    type Case: Serialize + DeserializeOwned + Clone + Send + Sync + Debug + 'static;
    fn id(&self) -> &'static str;
    /// The explored space, in words.
    fn bounds(&self, tier: Tier) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn enumerate(&self, tier: Tier, emit: &mut dyn FnMut(Self::Case));
    fn check(&self, c: &Self::Case, o: &mut Obs) -> Result<(), Bad<Self::Case>>;
    /// CPU seconds one case may take before it counts as not terminating.
    fn case_limit(&self, tier: Tier) -> u64 {
        tier.pick(120, 1200)
    }
    fn threads(&self) -> usize {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    }
}

pub enum Mode {
    Explore(Tier),
    Replay(PathBuf),
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

struct Slot<C> {
    case: Mutex<Option<(C, f64)>>,
    clock: AtomicUsize,
}

#[allow(non_camel_case_types)]
mod sys {
    #[repr(C)]
    pub struct timespec {
        pub s: i64,
        pub n: i64,
    }
    extern "C" {
        pub fn pthread_self() -> usize;
        pub fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
        pub fn clock_gettime(c: i32, t: *mut timespec) -> i32;
    }
    pub fn my_clock() -> i32 {
        let mut c = 0;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
        c
    }
    pub fn cpu(c: i32) -> f64 {
        let mut t = timespec { s: 0, n: 0 };
        unsafe { clock_gettime(c, &mut t) };
        t.s as f64 + t.n as f64 * 1e-9
    }
}

struct Found {
    index: usize,
    msg: String,
    case: String,
}

pub fn main_loop<K: Check>(k: &K, mode: Mode) -> i32 {
    if std::env::var_os("MC_TRACE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match mode {
        Mode::Replay(p) => replay(k, p),
        Mode::Explore(t) => explore(k, t),
    }
}

fn one<K: Check>(k: &K, c: &K::Case, o: &mut Obs) -> Result<(), Bad<K::Case>> {
    match catch_unwind(AssertUnwindSafe(|| k.check(c, o))) {
        Ok(r) => r,
        Err(e) => {
            run::clear();
            Err(Bad { msg: format!("panic: {}", run::panic_text(&*e)), case: None })
        }
    }
}

fn replay<K: Check>(k: &K, p: PathBuf) -> i32 {
    let txt = std::fs::read_to_string(&p).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&txt).expect("replay file is json");
    let c: K::Case = serde_json::from_value(v["case"].clone()).expect("case");
    println!("replaying {} {}", k.id(), v["case"]);
    match one(k, &c, &mut Obs::default()) {
        Ok(()) => {
            println!("the property holds on this case");
            0
        }
        Err(b) => {
            println!("VIOLATION property={} replay={}\n  {}", k.id(), p.display(), b.msg);
            1
        }
    }
}

fn known(id: &str) -> Vec<(serde_json::Value, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            let head = format!("known: property={} case=", id);
            if let Some(r) = l.strip_prefix(&head) {
                // the case is one JSON value, the rest of the line says what fails
                let mut it = serde_json::Deserializer::from_str(r).into_iter::<serde_json::Value>();
                if let Some(Ok(c)) = it.next() {
                    let n = it.byte_offset();
                    v.push((c, r[n..].trim().to_string()));
                }
            }
        }
    }
    v
}

fn explore<K: Check>(k: &K, tier: Tier) -> i32 {
    let start = Instant::now();
    let n = k.threads();
    let (tx, rx) = sync_channel::<Vec<(usize, K::Case)>>(4 * n);
    let rx = Arc::new(Mutex::new(rx));
    let slots: Vec<Slot<K::Case>> =
        (0..n).map(|_| Slot { case: Mutex::new(None), clock: AtomicUsize::new(0) }).collect();
    let total = Mutex::new(Obs::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let emitted = AtomicUsize::new(0);
    let known = known(k.id());
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
    let hits: Mutex<Vec<usize>> = Mutex::new(vec![]);
    let max_found = 5;

    let finish = |extra: Option<Found>| -> i32 {
        let mut f = std::mem::take(&mut *found.lock().unwrap());
        f.extend(extra);
        f.sort_by_key(|x| x.index);
        let o = total.lock().unwrap();
        let hit = hits.lock().unwrap();
        for h in hit.iter() {
            println!("KNOWN-FINDING: property={} {}", k.id(), known[*h].1);
        }
        let mut names = vec![];
        for x in &f {
            let dir = root().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let mut h = run::Fnv::default();
            std::hash::Hash::hash(&x.case, &mut h);
            let p = dir.join(format!("{}-{:016x}.json", k.id(), std::hash::Hasher::finish(&h)));
            let case: serde_json::Value = serde_json::from_str(&x.case).unwrap();
            let j = serde_json::json!({"property": k.id(), "message": x.msg, "case": case});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
            println!("VIOLATION property={} replay={}", k.id(), p.display());
            println!("  {}\n  case {}", x.msg, x.case);
            names.push(serde_json::json!({"message": x.msg, "replay": p.display().to_string()}));
        }
        let cases = emitted.load(Ordering::SeqCst);
        let wall = start.elapsed().as_secs_f64();
        let mut cov = serde_json::json!({
            "states": o.states.len(),
            "transitions": o.trans,
            "traces_validated_against_impl": o.runs,
            "cases_enumerated": cases,
            "bounds": k.bounds(tier),
            "exhaustive": f.is_empty(),
            "shim": cfg!(feature = "shim"),
            "samples": *samples.lock().unwrap(),
        });
        for (a, b) in &o.counts {
            cov[a] = serde_json::json!(b);
        }
        let mut asm = k.assumptions();
        asm.push("every trace is an execution of the implementation built from /repo's working tree and is judged by an independent reference".into());
        let ev = serde_json::json!({
            "property": k.id(),
            "tier": tier.pick("quick", "thorough"),
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
            "level": "model_checking",
            "coverage": cov,
            "assumptions": asm,
            "wall_s": (wall * 1000.0).round() / 1000.0,
            "violations": f.len(),
            "violation_list": names,
        });
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", k.id())), serde_json::to_string_pretty(&ev).unwrap() + "\n")
            .expect("evidence");
        println!(
            "{}: {} cases, {} executions, {} states, {} transitions, {} violations, {:.1} s",
            k.id(), cases, o.runs, o.states.len(), o.trans, f.len(), wall
        );
        if f.is_empty() { 0 } else { 1 }
    };

    let mut code = 0;
    std::thread::scope(|s| {
        let mut workers = vec![];
        for w in 0..n {
            let rx = Arc::clone(&rx);
            let (slots, total, found, stop, samples, known, hits) =
                (&slots, &total, &found, &stop, &samples, &known, &hits);
            workers.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                run::set_worker(w);
                let clk = sys::my_clock();
                slots[w].clock.store(clk as isize as usize, Ordering::SeqCst);
                let mut o = Obs::default();
                loop {
                    let b = rx.lock().unwrap().recv();
                    let Ok(b) = b else { break };
                    for (i, c) in b {
                        if stop.load(Ordering::Relaxed) {
                            continue;
                        }
                        *slots[w].case.lock().unwrap() = Some((c.clone(), sys::cpu(clk)));
                        let r = one(k, &c, &mut o);
                        *slots[w].case.lock().unwrap() = None;
                        if i % 997 == 3 || i == 0 {
                            let mut s = samples.lock().unwrap();
                            if s.len() < 6 {
                                s.push(serde_json::to_string(&c).unwrap());
                            }
                        }
                        if let Err(b) = r {
                            let case = serde_json::to_value(b.case.as_ref().unwrap_or(&c)).unwrap();
                            let whole = serde_json::to_value(&c).unwrap();
                            if let Some(h) = known.iter().position(|(v, _)| v == &case || v == &whole) {
                                let mut hs = hits.lock().unwrap();
                                if !hs.contains(&h) {
                                    hs.push(h);
                                }
                                continue;
                            }
                            let mut f = found.lock().unwrap();
                            f.push(Found { index: i, msg: b.msg, case: case.to_string() });
                            if f.len() >= max_found {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                }
                let mut t = total.lock().unwrap();
                t.runs += o.runs;
                t.trans += o.trans;
                if t.states.is_empty() {
                    t.states = o.states;
                } else {
                    t.states.extend(o.states);
                }
                for (a, b) in o.counts {
                    *t.counts.entry(a).or_insert(0) += b;
                }
            }).expect("spawn"));
        }
        // monitor: a case that uses too much CPU or memory is reported and ends the run
        let (slots_r, done_r, finish_r) = (&slots, &done, &finish);
        let limit = k.case_limit(tier) as f64;
        let mon = s.spawn(move || loop {
            if done_r.load(Ordering::SeqCst) {
                return;
            }
            std::thread::sleep(Duration::from_millis(100));
            for (w, sl) in slots_r.iter().enumerate() {
                let g = sl.case.lock().unwrap();
                if let Some((c, t0)) = g.as_ref() {
                    let used = sys::cpu(sl.clock.load(Ordering::SeqCst) as isize as i32) - t0;
                    let parked = run::parked(w);
                    if used > limit || parked {
                        let msg = if parked {
                            "does not terminate: memory limit reached".to_string()
                        } else {
                            format!("does not terminate: {:.0} s of CPU time used", used)
                        };
                        let case = run::current(w).unwrap_or_else(|| serde_json::to_string(c).unwrap());
                        let f = Found { index: 0, msg, case };
                        let code = finish_r(Some(f));
                        std::process::exit(code);
                    }
                }
            }
        });
        let mut batch: Vec<(usize, K::Case)> = vec![];
        let mut idx = 0usize;
        k.enumerate(tier, &mut |c| {
            if stop.load(Ordering::Relaxed) {
                return;
            }
            batch.push((idx, c));
            idx += 1;
            emitted.store(idx, Ordering::Relaxed);
            // small batches first, so that a handful of heavy cases spreads over the workers
            let size = if idx < 256 { 1 } else if idx < 20_000 { 8 } else { 64 };
            if batch.len() >= size {
                let _ = tx.send(std::mem::take(&mut batch));
            }
        });
        let _ = tx.send(batch);
        drop(tx);
        for w in workers {
            let _ = w.join();
        }
        done.store(true, Ordering::SeqCst);
        let _ = mon.join();
        code = finish(None);
    });
    code
}
