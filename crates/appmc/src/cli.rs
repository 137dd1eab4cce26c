//! The command line program, run as a user runs it.
use crate::compose::*;
use crate::json::*;
use crate::reg::*;
use crate::text::*;
use kit::dom::*;
use kit::engine::*;
use kit::ensure;
use kit::fnc::*;
use kit::frame::*;
use kit::geo::*;
use kit::refined::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};
use Act::*;
use Shape::*;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    /// a description, its place, quality and area bound
    Comp(Vec<Act>, usize, f64, Option<f64>),
    /// a text that describes nothing
    Bad(String),
    Bytes(Vec<u8>),
    /// no such file
    Missing,
    /// a folder instead of a file
    Folder,
    /// one of the repository's examples
    Example(String),
}
use What::*;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Stdout,
    /// -o with a new file
    Fresh,
    /// --output=file, longer before, names with blanks
    Over,
    /// -o in a folder that is not there
    Nowhere,
    /// -o names the input
    Same,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    what: What,
    mode: Mode,
    sched: Sched,
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Result<Scratch, String> {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir(&d).map_err(|e| e.to_string())?;
        Ok(Scratch(d))
    }
    fn list(&self) -> BTreeMap<String, Vec<u8>> {
        fs::read_dir(&self.0)
            .unwrap()
            .map(|e| {
                let e = e.unwrap();
                (e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_default())
            })
            .collect()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn cli() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("cli")
}

fn run(c: &Case, o: &mut Obs) -> Result<(), String> {
    let dir = Scratch::new()?;
    let spaced = c.mode == Mode::Over;
    let name = if spaced { "the input.json" } else { "in.json" };
    let input = dir.0.join(name);
    match &c.what {
        Comp(acts, place, q, a) => {
            let s = PLACES[*place].scale();
            let p = format!("\"quality\": {:?}{}", q, a.map(|a| format!(", \"max_area\": {:?}", a * s * s)).unwrap_or_default());
            fs::write(&input, document(&PLACES[*place], acts, &p)).unwrap();
        }
        Bad(t) => fs::write(&input, t).unwrap(),
        Bytes(b) => fs::write(&input, b).unwrap(),
        Missing => {}
        Folder => fs::create_dir(&input).unwrap(),
        Example(n) => {
            fs::copy(Path::new("/repo/example").join(n), &input).map_err(|e| e.to_string())?;
        }
    }
    let outname = match c.mode {
        Mode::Stdout => None,
        Mode::Fresh => Some("out.json"),
        Mode::Over => Some("the output.json"),
        Mode::Nowhere => Some("no/out.json"),
        Mode::Same => Some(name),
    };
    let old = "{}".repeat(200_000);
    if c.mode == Mode::Over {
        fs::write(dir.0.join(outname.unwrap()), &old).unwrap();
    }
    let before = dir.list();
    let mut cmd = Command::new(cli());
    cmd.current_dir(&dir.0).env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    let mut sched = c.sched.policy.to_string();
    for d in &c.sched.dev {
        sched += &format!(" {}:{}", d.0, d.1);
    }
    cmd.env("VSTD_SCHEDULE", sched);
    if spaced {
        cmd.arg(format!("--input={}", name));
        cmd.arg(format!("--output={}", outname.unwrap()));
    } else {
        cmd.arg("-i").arg(&input);
        if let Some(n) = outname {
            cmd.arg("-o").arg(dir.0.join(n));
        }
    }
    // the streams go to files: a full pipe must not stop the program
    let streams = Scratch::new()?;
    let (so, se) = (streams.0.join("o"), streams.0.join("e"));
    cmd.stdout(fs::File::create(&so).unwrap()).stderr(fs::File::create(&se).unwrap());
    let mut child = cmd.spawn().map_err(|e| format!("{}: {}", cli().display(), e))?;
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if start.elapsed() > Duration::from_secs(180) {
            let _ = child.kill();
            let _ = child.wait();
            return Err("the program does not end".into());
        }
        std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 20 { 200 } else { 5000 }));
    };
    o.runs += 1;
    o.trans += 3;
    let stdout = fs::read_to_string(&so).map_err(|e| e.to_string())?;
    let stderr = fs::read_to_string(&se).unwrap_or_default();
    let mut after = dir.list();
    // (the order removals are taken in may decide what is refused)
    let mut either = false;
    let want: Option<Vec<Dom>> = match &c.what {
        Comp(acts, _, q, a) => {
            let m = meaning(acts).ok_or("not judged")?;
            let l: Vec<Dom> = m
                .iter()
                .filter_map(|w| match w {
                    Out::Refused => None,
                    Out::Region(r) => {
                        let outer = loops(*r).into_iter().find(|l| area2(l) > 0).unwrap();
                        constrain(*r, acts).map(|m| m.dom(0, &outer).refine(*q, *a))
                    }
                })
                .collect();
            either = !l.is_empty() && l.len() < m.len();
            if l.is_empty() { None } else { Some(l) }
        }
        Example(_) => Some(vec![]),
        _ => None,
    };
    let good = want.is_some() && c.mode != Mode::Nowhere && !(either && !status.success());
    ensure!(status.success() == good, "the program ends with {} {}", status, stderr.lines().find(|l| !l.trim().is_empty()).unwrap_or(""));
    if !good {
        ensure!(status.code().is_some(), "the program was ended by a signal");
        ensure!(stdout.is_empty(), "refused, but something was printed");
        ensure!(!stderr.is_empty(), "refused without a word");
        ensure!(after == before, "refused, but files changed");
        o.state(&(status.code(), c.mode as u8));
        return Ok(());
    }
    let text = match outname {
        None => stdout,
        Some(n) => {
            ensure!(stdout.is_empty(), "the mesh was asked for in a file, but something was printed");
            let t = after.remove(n).ok_or("the output file is missing")?;
            String::from_utf8(t).map_err(|e| e.to_string())?
        }
    };
    let mut rest = before;
    if let Some(n) = outname {
        rest.remove(n);
    }
    ensure!(after == rest, "other files changed");
    let w = written(&text)?;
    let want = want.unwrap();
    match &c.what {
        Comp(_, place, ..) => {
            ensure!(w.name == "case" && w.date == "then", "the heading became {:?} {:?}", w.name, w.date);
            let f = &PLACES[*place];
            let m = mesh(&w, f)?;
            let mut why = String::new();
            for d in &want {
                match keeps(d, &m).and_then(|_| if wide(d) { bounded(d, &m) } else { Ok(()) }) {
                    Ok(()) => {
                        o.state(&(w.tris.len(), w.points.len()));
                        return Ok(());
                    }
                    Err(e) => why = e,
                }
            }
            return Err(why);
        }
        Example(n) => {
            let t = fs::read_to_string(Path::new("/repo/example").join(n)).unwrap();
            let doc = parse(&t)?;
            ensure!(doc.get("name")?.str()? == w.name, "the name became {:?}", w.name);
            let m = mesh(&w, &FRAMES[0])?;
            ensure!(!m.tris.is_empty(), "an empty mesh");
            let p = doc.get("params")?;
            let q = p.get("quality")?.f()?;
            let a = p.get("max_area").ok().map(|a| a.f()).transpose()?;
            for t in &m.tris {
                ensure!(m.area(t) > 0.0, "a triangle is turned over");
                ensure!(m.ratio(t) < q * (1.0 + 1e-9), "a triangle's ratio is {} and {} was asked", m.ratio(t), q);
                ensure!(a.map_or(true, |a| m.area(t) < a + 1e-12), "a triangle's area is {}", m.area(t));
            }
            o.state(&(w.tris.len(), w.points.len()));
        }
        _ => unreachable!(),
    }
    Ok(())
}

/// The mesh as it is written: no directed edge twice, every point used.
fn mesh(w: &Written, f: &Frame) -> Result<FMesh, String> {
    let far = w.points.iter().map(|p| p.0.abs().max(p.1.abs())).fold(1.0, f64::max) / f.scale();
    let pts = w.points.iter().map(|p| f.back(p.0, p.1)).collect();
    let mut m = FMesh { pts, tris: w.tris.clone(), dir: BTreeMap::new(), tol: 1e-9 + 1e3 * f.grain(), far };
    let mut used = vec![false; m.pts.len()];
    for (k, t) in w.tris.iter().enumerate() {
        for i in 0..3 {
            used[t[i]] = true;
            ensure!(m.dir.insert((t[i], t[(i + 1) % 3]), k).is_none(), "a directed edge belongs to two triangles");
        }
    }
    ensure!(used.iter().all(|u| *u), "a point is no vertex");
    Ok(m)
}

fn gen(t: Tier, f: &mut dyn FnMut(Case)) {
    const M: [Mode; 5] = [Mode::Stdout, Mode::Fresh, Mode::Over, Mode::Nowhere, Mode::Same];
    let mut n = 0usize;
    // the examples, slow ones first
    for e in ["circle.json", "moon.json", "wrench.json", "square_with_hole.json", "square_one.json", "traingle_one.json"] {
        if Path::new("/repo/example").join(e).exists() {
            for p in 0..t.pick(1, 8) {
                f(Case { what: Example(e.into()), mode: if p == 0 { Mode::Fresh } else { Mode::Stdout }, sched: Sched::base(p) });
            }
        }
    }
    // descriptions: of the compositions and of their constraints
    let params = [(1.42, None), (2.0, Some(4.0)), (5.0, Some(1.0)), (50.0, None)];
    let mut comps: Vec<(Vec<Act>, usize)> = vec![];
    compositions(Tier::Quick, &mut |c| comps.push((c.acts, c.place)));
    for (acts, place) in comps.into_iter().step_by(t.pick(41, 5)) {
        n += 1;
        let (q, a) = params[n % 4];
        f(Case { what: Comp(acts, place, q, a), mode: M[n % 5], sched: Sched::base((n / 5 % 4) as u32) });
    }
    // one document in every mode and many schedules
    let plate = Poly(vec![(0, 0), (8, 0), (8, 8), (0, 8)]);
    let hole = Circle((4, 4), 2, 4);
    let docs = [
        vec![Inc(plate.clone())],
        vec![Inc(plate.clone()), Rem(hole.clone())],
        vec![Inc(plate.clone()), Rem(hole.clone()), Seg(vec![((7, 1), (7, 7))]), Ver(vec![(1, 7), (2, 7)])],
        vec![Inc(plate.clone()), Inc(Poly(vec![(6, 6), (10, 6), (10, 10), (6, 10)])), Asm(vec![((2, 2), (6, 2)), ((6, 2), (6, 6))])],
        vec![Rem(plate.clone())],
        vec![Inc(plate.clone()), Rem(plate.clone())],
        vec![Inc(Poly(vec![(0, 0), (4, 0), (4, 4), (0, 4)])), Inc(Poly(vec![(8, 0), (10, 0), (10, 2)]))],
        vec![Inc(plate.clone()), Ver(vec![(9, 4)])],
        vec![Inc(plate.clone()), Seg(vec![((2, 2), (9, 4))])],
    ];
    for d in &docs {
        for (q, a) in params {
            for m in M {
                for p in 0..t.pick(2, 8) {
                    f(Case { what: Comp(d.clone(), 0, q, a), mode: m, sched: Sched::base(p) });
                }
            }
        }
    }
    if cfg!(feature = "shim") {
        for p in 0..t.pick(60, 400) {
            for alt in 0..t.pick(1, 3) {
                f(Case { what: Comp(docs[2].clone(), 0, 1.42, None), mode: Mode::Stdout, sched: Sched { policy: 0, dev: vec![(p, alt + 1)] } });
            }
        }
    }
    // what describes nothing
    let good = document(&PLACES[0], &docs[0], "\"quality\": 1.5");
    let mut bad: Vec<What> = vec![Missing, Folder, Bytes(vec![0xff, 0xfe, b'{', b'}']), Bytes(vec![])];
    let mut k = 0usize;
    crate::accept::texts(&mut |t_, g| {
        k += 1;
        if !g && k % t.pick(11, 2) == 0 {
            bad.push(Bad(t_));
        }
    });
    for i in (0..good.len()).step_by(t.pick(9, 1)) {
        bad.push(Bad(good[..i].into()));
    }
    bad.push(Bytes([b"\xef\xbb\xbf", good.as_bytes()].concat()));
    for b in bad {
        for m in [Mode::Stdout, Mode::Fresh, Mode::Over] {
            n += 1;
            if n % 3 == 0 || !matches!(b, Bad(_)) {
                f(Case { what: b.clone(), mode: m, sched: Sched::base((n % 2) as u32) });
            }
        }
    }
}

pub fn checks() -> Vec<FnCheck<Case>> {
    vec![FnCheck {
        id: "C37",
        bounds: |t| format!("the program itself on: {} of C34's descriptions; 9 descriptions with 4 refinements in 5 ways to name the output under {} hash orders; one under {} single deviations of the hash order; the repository's examples; {} of C36's improper texts, a missing file, a folder, bytes that are no text", t.pick("every 41st", "every fifth"), t.pick(2, 8), t.pick(60, 1200), t.pick("every eleventh", "every second")),
        gen,
        check: run,
        assume: &["a run that takes over three minutes does not end"],
    }]
}
