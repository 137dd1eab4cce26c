//! What descriptions are accepted, and what circles become.
use crate::json::*;
use crate::reg::steps;
use app::json_serializar::models::action::Action;
use app::json_serializar::models::output::TriangulationOutput;
use app::triangulator_interface::interpreter::circle_parser;
use kit::engine::*;
use kit::ensure;
use kit::fnc::*;
use kit::frame::*;
use kit::geo::*;
use kit::run;
use serde::{Deserialize, Serialize};

const F: Frame = Frame { exp: -1, ox: 16, oy: 16, ..kit::frame::FRAMES[0] };

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Doc {
    /// an outline: accepted iff it is a simple polygon
    Outline(Vec<P>, bool),
    /// a text, and whether it describes a domain
    Text(String, bool),
}

/// Reads, builds and triangulates: None when refused.
fn through(text: &str) -> Result<Option<TriangulationOutput>, String> {
    run::guarded(run::STEP_LIMIT, || {
        let input = read(text).ok()?;
        let (mut t, _) = app::triangulator_interface::parse(&input).ok()?;
        t.triangulate();
        Some(TriangulationOutput::from_triangulator(&input, &t))
    })
    .map_err(|e| e.to_string())
}

fn accept(c: &Doc, o: &mut Obs) -> Result<(), String> {
    o.runs += 1;
    o.trans += 1;
    match c {
        Doc::Outline(p, remove) => {
            let plate = [(-2, -2), (8, -2), (8, 8), (-2, 8)];
            let acts = if *remove {
                vec![Act::Inc(Shape::Poly(plate.to_vec())), Act::Rem(Shape::Poly(p.clone()))]
            } else {
                vec![Act::Inc(Shape::Poly(p.clone()))]
            };
            let got = through(&document(&F, &acts, "\"quality\": 1.0"))?;
            // repeated points, the closing one included, make no side
            let mut p = p.clone();
            p.dedup();
            if p.len() > 1 && p.first() == p.last() {
                p.pop();
            }
            let p = &p;
            ensure!(got.is_some() == simple(p, true), "{} outline {:?} is {}", if simple(p, true) { "the simple" } else { "the improper" }, p, if got.is_some() { "accepted" } else { "refused" });
            if let Some(out) = got {
                let mesh = triangles(&F, &out)?;
                ensure!(mesh.iter().all(|t| orient(t[0], t[1], t[2]) > 0), "a triangle is turned over");
                let ring = |p: &[P]| (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect::<Vec<_>>();
                let mut want = p.clone();
                if (area2(&want) < 0) != *remove {
                    want.reverse();
                }
                let mut want = ring(&want);
                if *remove {
                    want.extend(ring(&plate));
                }
                ensure!(steps(mesh.iter().flat_map(|t| ring(t))) == steps(want), "the mesh does not cover the outline");
                o.state(&mesh.len());
            }
        }
        Doc::Text(t, good) => {
            let got = through(t)?;
            ensure!(got.is_some() == *good, "{} instead of {}", if got.is_some() { "accepted" } else { "refused" }, if *good { "accepted" } else { "refused" });
            o.state(&(got.is_some(), t.len()));
        }
    }
    Ok(())
}

fn sequences(n: usize, k: usize, f: &mut dyn FnMut(Vec<usize>)) {
    let mut c = vec![0; k];
    loop {
        f(c.clone());
        let Some(i) = (0..k).rev().find(|&i| c[i] + 1 < n) else { return };
        c[i] += 1;
        for x in &mut c[i + 1..] {
            *x = 0;
        }
    }
}

const PLATE: &str = "{ \"intent\": \"include\", \"geometry\": \"polyline\", \"points\": [ {\"x\": 0, \"y\": 0}, {\"x\": 8, \"y\": 0}, {\"x\": 8, \"y\": 8}, {\"x\": 0, \"y\": 8} ] }";
fn doc(acts: &[String]) -> String {
    format!("{{ \"name\": \"n\", \"actions\": [ {} ], \"params\": {{ \"quality\": 1.0 }} }}", acts.join(", "))
}
fn with(act: String) -> String {
    doc(&[PLATE.to_string(), act])
}

fn gen(t: Tier, f: &mut dyn FnMut(Doc)) {
    let g = scale(&grid(3, 3), 2);
    for k in 0..=t.pick(5, 6) {
        sequences(9, k, &mut |c| {
            // every start for the short ones
            if k < 5 || c[0] == 4 || c.iter().all(|&x| x >= c[0]) {
                let p: Vec<P> = c.iter().map(|&i| g[i]).collect();
                f(Doc::Outline(p.clone(), false));
                if k < 5 || t.deep() && k == 5 {
                    f(Doc::Outline(p, true));
                }
            }
        });
    }
    texts(&mut |s, good| f(Doc::Text(s, good)));
}

/// Texts, and whether they describe a domain.
pub fn texts(text: &mut dyn FnMut(String, bool)) {
    // intents and geometries
    let pts = |n: usize| (0..n).map(|i| [(2, 2), (3, 2), (3, 3), (2, 3), (5, 5), (6, 6)][i]).map(|p| format!("{{\"x\": {}, \"y\": {}}}", p.0, p.1)).collect::<Vec<_>>().join(", ");
    let intents = ["include", "remove", "constraint", "", "Include", "includes", "removal"];
    let geoms = ["polyline", "circle", "segments", "vertices", "", "Polyline", "spline", "segment"];
    for i in intents {
        for g in geoms {
            let (n, sc) = if g == "circle" { (1, "1.0, 8") } else { (4, "") };
            let known = match g {
                "polyline" | "circle" => i == "include" || i == "remove",
                "segments" | "vertices" => i == "constraint",
                _ => false,
            };
            let act = format!("{{ \"intent\": {:?}, \"geometry\": {:?}, \"scalars\": [{}], \"points\": [{}] }}", i, g, sc, pts(n));
            text(with(act.clone()), known);
            text(doc(&[act.clone(), PLATE.into()]), known);
            // nothing to triangulate without an include
            text(doc(&[act.clone()]), i == "include" && known);
            // each field missing
            text(with(format!("{{ \"geometry\": {:?}, \"scalars\": [{}], \"points\": [{}] }}", g, sc, pts(n))), false);
            text(with(format!("{{ \"intent\": {:?}, \"scalars\": [{}], \"points\": [{}] }}", i, sc, pts(n))), false);
            let bare = known && (g == "segments" || g == "vertices");
            text(with(format!("{{ \"intent\": {:?}, \"geometry\": {:?} }}", i, g)), bare);
        }
    }
    // segments by pairs
    for n in 0..=6 {
        text(with(format!("{{ \"intent\": \"constraint\", \"geometry\": \"segments\", \"points\": [{}] }}", pts(n))), n % 2 == 0);
        text(with(format!("{{ \"intent\": \"constraint\", \"geometry\": \"vertices\", \"points\": [{}] }}", pts(n))), true);
    }
    // segments by index
    for n in 0..=3usize {
        for k in 1..=3 {
            sequences(4, k, &mut |c| {
                let good = c.len() >= 2 && c[0] < n && c[1] < n;
                if c.len() >= 2 && c[0] == c[1] && good {
                    return; // empty segments: below
                }
                let a: Vec<String> = c.iter().map(|i| i.to_string()).collect();
                text(with(format!("{{ \"intent\": \"constraint\", \"geometry\": \"segments\", \"points\": [{}], \"assemble\": [[{}]] }}", pts(n), a.join(", "))), good);
                text(with(format!("{{ \"intent\": \"constraint\", \"geometry\": \"segments\", \"points\": [{}], \"assemble\": [[0, 1], [{}]] }}", pts(n), a.join(", "))), good && n >= 2);
            });
        }
    }
    for a in ["[]", "[[]]", "[[0, 1], []]", "[0, 1]", "[[0, -1]]", "[[0, 1.5]]", "[[0, \"1\"]]", "{}", "null"] {
        text(with(format!("{{ \"intent\": \"constraint\", \"geometry\": \"segments\", \"points\": [{}], \"assemble\": {} }}", pts(2), a)), a == "[]");
    }
    // empty segments describe nothing
    for p in [(3, 3), (2, 5)] {
        let q = format!("{{\"x\": {}, \"y\": {}}}", p.0, p.1);
        text(with(format!("{{ \"intent\": \"constraint\", \"geometry\": \"segments\", \"points\": [{}, {}] }}", q, q)), false);
        text(with(format!("{{ \"intent\": \"constraint\", \"geometry\": \"segments\", \"points\": [{}], \"assemble\": [[0, 0]] }}", q)), false);
    }
    // circles
    for (r, rok) in [("1", true), ("0.5", true), ("-1", true), ("0", false), ("-0.0", false), ("1e-320", false), ("\"1\"", false), ("null", false)] {
        for (n, nok) in [("", true), (", 3", true), (", 4", true), (", 2.5", true), (", 2.4", false), (", 2", false), (", 1", false), (", 0", false), (", -5", false), (", 7.4, 9", true), (", \"3\"", false)] {
            for (c, cok) in [("", false), ("{\"x\": 4, \"y\": 4}", true), ("{\"x\": 4, \"y\": 4}, {\"x\": 4, \"y\": 5}", false), ("{\"x\": 4}", false), ("{\"x\": 4, \"y\": null}", false)] {
                for i in ["include", "remove"] {
                    text(with(format!("{{ \"intent\": {:?}, \"geometry\": \"circle\", \"scalars\": [{}{}], \"points\": [{}] }}", i, r, n, c)), rok && nok && cok);
                }
            }
        }
    }
    text(with("{ \"intent\": \"include\", \"geometry\": \"circle\", \"scalars\": [], \"points\": [{\"x\": 4, \"y\": 4}] }".into()), false);
    // the frame of the document
    let p = "\"params\": { \"quality\": 1.0 }";
    let id = "\"id\": \"936da01f-9abd-4d9d-80c7-02af85c822a8\"";
    let a = format!("\"actions\": [ {} ]", PLATE);
    let n = "\"name\": \"n\"";
    for (s, good) in [
        (format!("{{ {}, {}, {} }}", n, a, p), true),
        (format!("{{ {}, {}, {}, {} }}", n, a, p, id), true),
        (format!("{{ {}, {}, {}, \"extra\": 1 }}", n, a, p), true),
        (format!("{{ {}, {}, {}, \"id\": \"x\" }}", n, a, p), false),
        (format!("{{ {}, {}, {}, \"id\": 7 }}", n, a, p), false),
        (format!("{{ {}, {}, {}, \"date\": 7 }}", n, a, p), false),
        (format!("{{ {}, {}, {}, \"date\": \"any\" }}", n, a, p), true),
        (format!("{{ {}, {} }}", a, p), false),
        (format!("{{ {}, {} }}", n, p), false),
        (format!("{{ {}, {} }}", n, a), false),
        (format!("{{ {}, {}, {} }}", n, "\"actions\": []", p), false),
        (format!("{{ {}, {}, {} }}", n, "\"actions\": {}", p), false),
        (format!("{{ {}, {}, \"params\": {{}} }}", n, a), false),
        (format!("{{ {}, {}, \"params\": {{ \"max_area\": 1.0 }} }}", n, a), false),
        (format!("{{ {}, {}, \"params\": {{ \"max_area\": null, \"quality\": 1.0 }} }}", n, a), true),
        (format!("{{ {}, {}, \"params\": {{ \"max_area\": \"1\", \"quality\": 1.0 }} }}", n, a), false),
        (format!("{{ {}, {}, \"params\": {{ \"max_area\": 2, \"quality\": 1 }} }}", n, a), true),
        (format!("[ {{ {}, {}, {} }} ]", n, a, p), false),
        (format!("{{ {}, {}, {} ", n, a, p), false),
        (format!("{{ {}, {}, {} }} }}", n, a, p), false),
        (String::new(), false),
        ("null".into(), false),
        ("{}".into(), false),
    ] {
        text(s, good);
    }
    // cut short anywhere, the text describes nothing
    let whole = format!("{{ {}, {}, {}, {} }}", id, n, a, p);
    for i in 0..whole.len() {
        text(whole[..i].into(), false);
    }
}

// ------------------------------------------------------------------ circles

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Circ {
    center: (f64, f64),
    radius: f64,
    /// the second scalar as written
    res: Option<f64>,
}

fn circle(c: &Circ, o: &mut Obs) -> Result<(), String> {
    let sc = match c.res {
        None => format!("[{:?}]", c.radius),
        Some(r) => format!("[{:?}, {:?}]", c.radius, r),
    };
    let a: Action = serde_json::from_str(&format!(
        "{{ \"intent\": \"include\", \"geometry\": \"circle\", \"scalars\": {}, \"points\": [{{\"x\": {:?}, \"y\": {:?}}}] }}",
        sc, c.center.0, c.center.1
    ))
    .map_err(|e| e.to_string())?;
    o.runs += 1;
    let got = run::guarded(0, || circle_parser::parse(&a)).map_err(|e| e.to_string())?;
    let n = match c.res {
        None => 100,
        Some(r) if r.round() < 0.0 => 0,
        Some(r) => r.round() as usize,
    };
    let r = c.radius;
    ensure!(got.is_ok() == (n >= 3 && r != 0.0), "a circle of {} sides is {}", n, if got.is_ok() { "accepted" } else { "refused" });
    let Ok(p) = got else { return Ok(()) };
    ensure!(!p.opened, "the circle is open");
    ensure!(p.vertices.len() == n, "{} sides instead of {}", p.vertices.len(), n);
    o.trans += n as u64;
    let big = c.center.0.abs().max(c.center.1.abs()) + r.abs();
    let eps = 1e-14 * big * 4.0;
    let v: Vec<(f64, f64)> = p.vertices.iter().map(|v| (v.x - c.center.0, v.y - c.center.1)).collect();
    let step = 2.0 * std::f64::consts::PI / n as f64;
    // n points on the circle, an equal turn apart, counterclockwise
    for i in 0..n {
        ensure!((v[i].0.hypot(v[i].1) - r.abs()).abs() <= eps, "corner {} is {} from the centre", i, v[i].0.hypot(v[i].1));
        let q = v[(i + 1) % n];
        let turned = (v[i].0 * step.cos() - v[i].1 * step.sin(), v[i].0 * step.sin() + v[i].1 * step.cos());
        ensure!((turned.0 - q.0).abs() <= 8.0 * eps && (turned.1 - q.1).abs() <= 8.0 * eps, "corner {} is not one turn after corner {}", (i + 1) % n, i);
    }
    o.state(&(n, r.to_bits()));
    Ok(())
}

fn circ_gen(t: Tier, f: &mut dyn FnMut(Circ)) {
    let centers = [(0.0, 0.0), (1.0, 1.0), (-3.5, 2.25), (1e3, -1e3), (0.1, 1e6), (-0.0, 1e-3)];
    let radii = [1.0, 0.5, 2.0, 1e-3, 1e3, 0.1, -1.0, -0.25, 0.0];
    for center in centers {
        for radius in radii {
            f(Circ { center, radius, res: None });
            for n in -3..=t.pick(130, 1000) {
                f(Circ { center, radius, res: Some(n as f64) });
            }
            for n in [1.4, 1.6, 2.4, 2.49, 2.5, 2.6, 3.4, 3.5, 7.49, 7.51, 99.5, -0.4, 1e-9, 2.9999] {
                f(Circ { center, radius, res: Some(n) });
            }
        }
    }
}

pub fn checks() -> Vec<FnCheck<Doc>> {
    vec![FnCheck {
        id: "C36",
        bounds: |t| format!("every outline of <={} points on a 3x3 lattice (repeated points included), as an inclusion and (<=4 points) as a removal; every intent with every geometry, known or not, each field missing; segments of 0..6 points, every index pair or triple over 0..3 points; circles with every radius, resolution and centre of the lists; documents with fields missing or of other types, and one document cut short at every byte", t.pick(5, 6)),
        gen,
        check: accept,
        assume: &[],
    }]
}
pub fn circles() -> FnCheck<Circ> {
    FnCheck {
        id: "C39",
        bounds: |t| format!("resolutions -3..{} and fractional ones, 9 radii (negative and zero too), 6 centres", t.pick(130, 1000)),
        gen: circ_gen,
        check: circle,
        assume: &[],
    }
}
