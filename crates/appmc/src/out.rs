//! What leaves the program: output documents and display buffers.
use crate::json::read;
use crate::text::written;
use app::glium_interface::vertex::Vertex as Gl;
use app::json_serializar::models::output::TriangulationOutput;
use kit::dom::*;
use kit::engine::*;
use kit::ensure;
use kit::fam::*;
use kit::geo::*;
use kit::sched::*;
use nlsn_delaunay::elements::vertex::Vertex;
use nlsn_delaunay::planar::refine_params::RefineParams;
use nlsn_delaunay::planar::triangulator::Triangulator;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    dom: Dom,
    head: u8,
    plan: Plan,
}
impl Planned for Case {
    fn plan(&self) -> &Plan {
        &self.plan
    }
    fn set_plan(&mut self, p: Plan) {
        self.plan = p;
    }
}

type B = (u64, u64);
fn bits(v: &Vertex) -> B {
    (v.x.to_bits(), v.y.to_bits())
}
fn least<T: Ord + Copy>(t: [T; 3]) -> [T; 3] {
    (0..3).map(|m| [t[m], t[(m + 1) % 3], t[(m + 2) % 3]]).min().unwrap()
}
/// solid triangles of the triangulation, by coordinates
fn solid(t: &Triangulator) -> Vec<[B; 3]> {
    let tr = t.triangulation.borrow();
    let mut l: Vec<_> = tr
        .triangles
        .iter()
        .filter(|t| !t.v1.is_ghost && !t.v2.is_ghost && !t.v3.is_ghost)
        .map(|t| least([bits(&t.v1), bits(&t.v2), bits(&t.v3)]))
        .collect();
    l.sort();
    l
}

fn made(d: &Dom) -> Result<Triangulator, String> {
    let mut t = d.build()?;
    t.triangulate();
    if let Some(p) = d.refine {
        let s = d.fr().scale();
        t.refine(RefineParams { quality_ratio: p.quality, max_area: p.area.map(|a| a * s * s) });
    }
    Ok(t)
}

const ID: &str = "936da01f-9abd-4d9d-80c7-02af85c822a8";
/// (id, name as JSON, name, date)
const HEADS: [(Option<&str>, &str, &str, Option<&str>); 8] = [
    (Some(ID), "mesh", "mesh", Some("2020-09-03T00:09:27.591Z")),
    (None, "", "", Some("")),
    (Some(ID), "two words", "two words", None),
    (None, "quote \\\" slash \\\\ / tab \\t line \\n", "quote \" slash \\ / tab \t line \n", Some("yesterday")),
    (Some("00000000-0000-0000-0000-000000000000"), "\u{e9}\u{4e2d}\\u0041", "\u{e9}\u{4e2d}A", Some("1\\\"2")),
    (Some("FFFFFFFF-FFFF-4FFF-BFFF-FFFFFFFFFFFF"), "null", "null", Some("null")),
    (None, "\\u0000\\u001f", "\0\u{1f}", Some("2020")),
    (None, "{}", "{}", None),
];

fn out_run(c: &Case) -> Result<Ran, String> {
    let t = made(&c.dom)?;
    let (id, raw, name, date) = HEADS[c.head as usize % HEADS.len()];
    let mut text = format!("{{ \"name\": \"{}\", \"actions\": [], \"params\": {{ \"quality\": 1.0 }}", raw);
    if let Some(i) = id {
        text += &format!(", \"id\": \"{}\"", i);
    }
    if let Some(d) = date {
        text += &format!(", \"date\": \"{}\"", d);
    }
    text += " }";
    let input = read(&text)?;
    let other = read(&text)?;
    let out = TriangulationOutput::from_triangulator(&input, &t);
    let want = solid(&t);
    for pretty in [true, false] {
        let s = if pretty { serde_json::to_string_pretty(&out) } else { serde_json::to_string(&out) }.map_err(|e| e.to_string())?;
        let w = written(&s)?;
        ensure!(w.name == name, "the name {:?} became {:?}", name, w.name);
        match id {
            Some(i) => ensure!(w.id == i.to_lowercase(), "the id {} became {}", i, w.id),
            None => {
                let hex = |r: std::ops::Range<usize>| w.id[r].bytes().all(|b| b.is_ascii_hexdigit());
                ensure!(
                    w.id.len() == 36 && hex(0..8) && hex(9..13) && hex(14..18) && hex(19..23) && hex(24..36),
                    "the id given to the document is {}",
                    w.id
                );
                ensure!(w.id != ID && w.id != TriangulationOutput::from_triangulator(&other, &t).id.to_string(), "two documents share the id {}", w.id);
            }
        }
        match date {
            Some("1\\\"2") => ensure!(w.date == "1\"2", "the date became {:?}", w.date),
            Some(d) => ensure!(w.date == d, "the date {:?} became {:?}", d, w.date),
            None => {
                let shape: String = w.date.chars().map(|c| if c.is_ascii_digit() { '0' } else { c }).collect();
                ensure!(shape == "0000-00-00T00:00:00.000Z", "the date given to the document is {:?}", w.date);
            }
        }
        // the points: the mesh's vertices, each once, to the last bit
        let pts: Vec<B> = w.points.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect();
        let listed: BTreeSet<B> = pts.iter().copied().collect();
        ensure!(listed.len() == pts.len(), "a point is listed twice");
        let used: BTreeSet<B> = want.iter().flatten().copied().collect();
        if let Some(p) = used.difference(&listed).next() {
            return Err(format!("the vertex ({:?}, {:?}) is not listed", f64::from_bits(p.0), f64::from_bits(p.1)));
        }
        if let Some(p) = listed.difference(&used).next() {
            return Err(format!("({:?}, {:?}) is listed but is no vertex", f64::from_bits(p.0), f64::from_bits(p.1)));
        }
        let mut got: Vec<[B; 3]> = w.tris.iter().map(|t| least([pts[t[0]], pts[t[1]], pts[t[2]]])).collect();
        got.sort();
        ensure!(got == want, "the triangles listed are not the mesh's ({} and {})", got.len(), want.len());
        // and the program reads its own output
        let back: TriangulationOutput = serde_json::from_str(&s).map_err(|e| format!("its own output is not read: {}", e))?;
        ensure!(
            back.id == out.id && back.name == out.name && back.date == out.date && back.tetrahedrons.is_empty(),
            "its own output is read differently"
        );
        let tri = |o: &TriangulationOutput| o.triangles.iter().map(|t| [t.v1, t.v2, t.v3]).collect::<Vec<_>>();
        ensure!(tri(&back) == tri(&out), "its own output is read differently");
        // (the JSON reader is allowed the last bit)
        let near = |a: f64, b: f64| (a - b).abs() <= 4.0 * f64::EPSILON * a.abs();
        ensure!(
            back.coordinates.len() == w.points.len() && back.coordinates.iter().zip(&w.points).all(|(p, q)| near(q.0, p.x) && near(q.1, p.y)),
            "its own output's points are read differently"
        );
    }
    Ok(Ran { ops: 3, state: fingerprint(&(want, c.head)) })
}

fn show_run(c: &Case) -> Result<Ran, String> {
    let t = made(&c.dom)?;
    let want = solid(&t);
    let f = |b: u64| (f64::from_bits(b) as f32).to_bits();
    let g = |b: B| (f(b.0), f(b.1));
    let v = |v: &Gl| (v.position[0].to_bits(), v.position[1].to_bits());
    let tr = t.triangulation.borrow();
    // triangles: three vertices each
    let b = Gl::triangles_from_triangulation(&tr);
    ensure!(b.len() == 3 * want.len(), "{} vertices for {} triangles", b.len(), want.len());
    let mut got: Vec<_> = b.chunks(3).map(|c| least([v(&c[0]), v(&c[1]), v(&c[2])])).collect();
    let mut exp: Vec<_> = want.iter().map(|t| least([g(t[0]), g(t[1]), g(t[2])])).collect();
    got.sort();
    exp.sort();
    ensure!(got == exp, "the triangles drawn are not the mesh's");
    // edges: every side once, whichever way
    let b = Gl::edges_from_triangulation(&tr);
    ensure!(b.len() % 2 == 0, "half an edge");
    let und = |a, b| if a < b { (a, b) } else { (b, a) };
    let mut exp: BTreeMap<_, u32> = BTreeMap::new();
    let mut sides: BTreeSet<(B, B)> = BTreeSet::new();
    for t in &want {
        for i in 0..3 {
            if sides.insert(und(t[i], t[(i + 1) % 3])) {
                let (p, q) = (g(t[i]), g(t[(i + 1) % 3]));
                *exp.entry(if p < q { (p, q) } else { (q, p) }).or_default() += 1;
            }
        }
    }
    let mut got: BTreeMap<_, u32> = BTreeMap::new();
    for c in b.chunks(2) {
        let (p, q) = (v(&c[0]), v(&c[1]));
        *got.entry(if p < q { (p, q) } else { (q, p) }).or_default() += 1;
    }
    ensure!(got == exp, "{} edges drawn for {} sides", b.len() / 2, sides.len());
    // plain coordinates
    let l: Vec<f32> = want.iter().flatten().flat_map(|b| [f64::from_bits(b.0) as f32, f64::from_bits(b.1) as f32]).collect();
    let b = Gl::from_coordinates(l.clone());
    ensure!(b.iter().flat_map(|v| v.position).map(f32::to_bits).eq(l.iter().map(|x| x.to_bits())), "coordinates became other vertices");
    Ok(Ran { ops: 3, state: fingerprint(&want) })
}

fn gen(t: Tier, f: &mut dyn FnMut(Case)) {
    let mut n = 0usize;
    let mut put = |d: Dom, plan: Plan| {
        n += 1;
        let frame = match kit::frame::cyc(n / 3) {
            // what refining adds there comes close to the least tolerance
            15 if d.refine.is_some() => 11,
            frame => frame,
        };
        f(Case { dom: d.frame(frame), head: (n % HEADS.len()) as u8, plan });
    };
    let b = Plan::Base(t.pick(2, 3));
    for k in 3..=t.pick(6, 9) {
        boundaries(3, 3, k, true, false, &mut |d| {
            put(d.clone(), b.clone());
            if k <= 5 {
                put(Dom { outer: scale(&d.outer, 4), ..d }.refine(1.6, Some(5.0)), b.clone());
            }
        });
    }
    for k in 3..=t.pick(5, 6) {
        one_hole(3, 3, k, false, &mut |d| {
            put(d.clone(), b.clone());
            if k == 3 {
                put(Dom { outer: scale(&d.outer, 3), holes: d.holes.iter().map(|h| scale(h, 3)).collect(), ..d }.refine(2.0, Some(3.0)), b.clone());
            }
        });
    }
    for k in 1..=2 {
        segs_in_square(3, 3, k, 2, &|_| true, &mut |d| {
            put(d.clone(), b.clone());
            if k == 1 {
                put(d.refine(1.5, Some(1.0)), b.clone());
            }
        });
    }
    for k in 0..=t.pick(4, 9) {
        let g = inner(3, 3);
        subsets(9, k, &mut |ix| {
            let vs: Vec<P> = ix.iter().map(|&i| g[i]).collect();
            put(Dom::new(square(4)).verts(&vs), b.clone());
            if k <= 2 {
                put(Dom::new(square(4)).verts(&vs).refine(1.45, Some(0.7)), b.clone());
            }
        });
    }
    mixed(3, 3, t.pick(9, 1), &mut |d| put(d, b.clone()));
    plates(2, 2, &mut |d| put(d, b.clone()));
    tiered(2, 1, &mut |d| put(d, b.clone()));
    for q in 3..=t.pick(6, 9) {
        for a in 1..=t.pick(4, 12) {
            put(Dom::new(square(q)).refine(1.42 + a as f64 / 7.0, Some(1.0 / a as f64)), b.clone());
        }
    }
    for k in 3..=t.pick(3, 4) {
        boundaries(3, 3, k, false, false, &mut |d| put(d, Plan::Deviate { policy: 0, depth: 1 }));
    }
}

pub fn checks() -> Vec<PlanCheck<Case>> {
    vec![
        PlanCheck {
            id: "C35",
            bounds: |t| format!("polygons of the 3x3 lattice k<={}, holes k<={}, one or two segments, every set of <={} vertices of a 3x3 lattice, mixed and tiered domains, plates; plain and refined, in 25 frames; 8 headings (ids and dates given or not, names with escapes); {} hash orders each, every single deviation for polygons k<={}", t.pick(6, 9), t.pick(5, 6), t.pick(4, 9), t.pick(2, 3), t.pick(3, 4)),
            gen,
            run: out_run,
            assume: &[],
        },
        PlanCheck {
            id: "C38",
            bounds: |t| format!("the same domains as C35 ({} hash orders each)", t.pick(2, 3)),
            gen,
            run: show_run,
            assume: &["the buffers are judged, not the window they are drawn in"],
        },
    ]
}
