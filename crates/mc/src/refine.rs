//! Refinement: domain and constraints kept, bounds reached, termination,
//! encroachment removed, Delaunay kept.
use kit::ensure;
use kit::dom::*;
use kit::engine::*;
use kit::fam::*;
use kit::frame::{cyc, CYCLE};
use kit::geo::*;
use kit::refined::*;
use kit::sched::*;
use kit::HashSet;
use nlsn_delaunay::elements::{edge::Edge, triangle::Triangle};
use nlsn_delaunay::planar::refine_params::RefineParams;
use nlsn_delaunay::planar::refine_procedures::{encroachment::{distribute_encroachments, unencroach}, triangle_split::split_irregular};
use nlsn_delaunay::planar::triangulator::Triangulator;
use std::collections::BTreeSet;
use std::rc::Rc;

type Emit<'a> = &'a mut dyn FnMut(Dom);

pub struct RefineCheck {
    pub id: &'static str,
    pub bounds: fn(Tier) -> String,
    pub fam: fn(Tier, Emit),
    pub judge: fn(&Dom, &FMesh) -> Result<(), String>,
    pub assume: &'static [&'static str],
}

fn any(_: &Dom, _: &FMesh) -> Result<(), String> {
    Ok(())
}
impl Check for RefineCheck {
    type Case = Dom;
    fn id(&self) -> &'static str {
        self.id
    }
    fn bounds(&self, t: Tier) -> String {
        (self.bounds)(t)
    }
    fn assumptions(&self) -> Vec<String> {
        self.assume.iter().map(|s| s.to_string()).collect()
    }
    fn enumerate(&self, t: Tier, emit: &mut dyn FnMut(Dom)) {
        (self.fam)(t, emit)
    }
    fn check(&self, d: &Dom, o: &mut Obs) -> Result<(), Bad<Dom>> {
        d.explore(o, &mut |t: &Triangulator| {
            let m = fextract(d.fr(), &t.triangulation.borrow())?;
            (self.judge)(d, &m)?;
            let mut f: Vec<(i64, i64)> =
                m.pts.iter().map(|p| ((p.0 * 1e6).round() as i64, (p.1 * 1e6).round() as i64)).collect();
            f.sort();
            Ok(fingerprint(&(f, m.tris.len())))
        })
    }
}

// ------------------------------------------------------------------ families

fn params(list: &[(f64, Option<f64>)], d: Dom, f: Emit) {
    for &(q, a) in list {
        f(d.clone().refine(q, a));
    }
}
const Q: [(f64, Option<f64>); 3] = [(1.42, None), (2.0, Some(1.0)), (5.0, Some(0.5))];

/// Every second domain that is not placed yet goes elsewhere. Not to the smallest
/// scale, where what refinement makes is not told from the least tolerance of
/// 1e-14; between sharp corners it goes on down to that tolerance, so these stay
/// where lengths of its root are far above the rounding of the coordinates.
fn dealt(d: Dom, n: usize) -> Dom {
    match (d.frame, cyc(n / 2)) {
        (0, 15) => d,
        (0, 14 | 16) if !wide(&d) => d,
        (0, k) if n % 2 == 1 => d.frame(k),
        _ => d,
    }
}

/// every domain here has only wide corners
fn fam_wide(t: Tier, f: Emit) {
    let mut n = 0;
    let f = &mut |d: Dom| {
        if wide(&d) {
            n += 1;
            f(dealt(d, n))
        }
    };
    for k in 3..=t.pick(8, 9) {
        boundaries(3, 3, k, true, false, &mut |d| {
            for fr in [0u8, 1, 3, 4, 10, 13, 14, 17, 20] {
                params(&Q, d.clone().frame(fr), f);
            }
        });
    }
    for k in 4..=t.pick(6, 8) {
        boundaries(4, 4, k, false, false, &mut |d| params(&Q[..t.pick(2, 3)], d, f));
    }
    boundaries(5, 4, 4, false, false, &mut |d| params(&Q, d, f));
    // long and flat rectangles, in different places and scales
    for w in 1..=t.pick(6, 12) {
        for h in 1..=3 {
            for fr in CYCLE {
                params(&Q, Dom::new(rect(w, h)).frame(fr).plan(Plan::Base(4)), f);
            }
        }
    }
    // holes
    for k in 3..=t.pick(4, 6) {
        one_hole(3, 3, k, false, &mut |d| params(&Q, d, f));
    }
    two_holes(3, 3, 3, 3, t.pick(1, 1), &mut |d| params(&Q, d, f));
    two_holes(4, 3, 3, 3, t.pick(30, 3), &mut |d| params(&Q[..1], d, f));
    plates(2, 2, &mut |d| params(&Q, d.plan(Plan::Base(4)), f));
    // segments
    segs_in_square(3, 3, 1, 1, &|_| true, &mut |d| params(&Q, d, f));
    segs_in_square(4, 3, 1, 1, &|_| true, &mut |d| params(&Q, d, f));
    segs_in_square(3, 3, 2, 2, &|_| true, &mut |d| params(&Q[..t.pick(1, 3)], d, f));
    let mut n = 0;
    segs_in_square(3, 3, 3, 2, &|_| true, &mut |d| {
        if !wide(&d) {
            return;
        }
        n += 1;
        if n % t.pick(15, 2) == 0 {
            params(&Q[..1], d, f)
        }
    });
    // vertices close to each other and to the sides
    for k in 1..=t.pick(2, 4) {
        let g = inner(3, 3);
        subsets(9, k, &mut |ix| {
            let vs: Vec<P> = ix.iter().map(|&i| g[i]).collect();
            params(&Q, Dom::new(square(4)).verts(&vs), f);
        });
    }
    for n in [8, t.pick(16, 32)] {
        for v in [(1, 1), (n / 2, 1), (n - 1, n / 2), (n / 2 - 1, 2)] {
            params(&Q[..1], Dom::new(square(n)).verts(&[v]), f);
            params(&Q[..1], Dom::new(square(n)).verts(&[v, (n - 1 - v.1, v.0)]), f);
        }
    }
    mixed(3, 3, t.pick(40, 4), &mut |d| params(&Q[..1], d, f));
    // constraints running close to each other: the pieces of one have their ends in the circles of the other
    let n = t.pick(9, 14);
    for gap in 1..=2 {
        for x in 1..n - 1 {
            for l in 1..=(n - 1 - x).min(3) {
                let two = [((1, 4), (n - 1, 4)), ((x, 4 + gap), (x + l, 4 + gap))];
                for fr in [0u8, 8, 17] {
                    params(&Q[..t.pick(1, 3)], Dom::new(square(n)).segs(&two).frame(fr).plan(Plan::Base(t.pick(1, 3))), f);
                }
            }
            if x + 2 < n {
                let h = vec![(x, 4 + gap), (x + 1, 4 + gap), (x + 1, 5 + gap), (x, 5 + gap)];
                params(&Q[..1], Dom::new(square(n)).segs(&[((1, 4), (n - 1, 4))]).hole(h).plan(Plan::Base(2)), f);
            }
        }
    }
    // ever finer meshes of one square
    for i in 1..=11 {
        let a = 4.0 / (2f64).powi(i);
        params(&[(1.42, Some(a))], Dom::new(square(2)), f);
        params(&[(2.0, Some(a))], Dom::new(square(2)).frame(1), f);
    }
    // schedules
    let dev = |n: u32| Plan::Deviate { policy: 0, depth: n };
    params(&Q[..1], Dom::new(rect(3, 1)).plan(dev(1)), f);
    params(&[(2.0, Some(0.6))], Dom::new(square(2)).plan(dev(1)), f);
    boundaries(3, 3, 4, false, false, &mut |d| params(&Q[..1], d.plan(dev(1)), f));
    if t.deep() {
        params(&[(1.42, Some(0.8))], Dom::new(rect(3, 1)).plan(dev(1)), f);
        params(&Q[..1], Dom::new(square(4)).verts(&[(1, 2)]).plan(dev(1)), f);
        params(&Q[..1], Dom::new(square(3)).hole(vec![(1, 1), (2, 1), (1, 2)]).plan(dev(1)), f);
        params(&Q[..1], Dom::new(rect(3, 1)).plan(dev(2)), f);
    }
}

/// any corners, also sharp ones
fn fam_any(t: Tier, f: Emit) {
    fam_wide(t, f);
    let mut n = 0;
    let f = &mut |d: Dom| {
        n += 1;
        f(dealt(d, n))
    };
    for k in 3..=t.pick(6, 9) {
        boundaries(3, 3, k, true, false, &mut |d| params(&Q[..2], d, f));
    }
    for k in 3..=t.pick(3, 5) {
        boundaries(4, 4, k, false, false, &mut |d| params(&Q[..2], d, f));
    }
    boundaries(5, 5, 3, false, false, &mut |d| params(&Q[..1], d, f));
    // needles
    for n in 3..=t.pick(9, 20) {
        for h in 0..=2 {
            params(&Q[..2], Dom::new(vec![(0, 0), (n, h), (n, h + 1)]), f);
            params(&Q[..2], Dom::new(vec![(0, 0), (n, h), (2 * n, 0), (n, h + 1)]), f);
        }
    }
    segs_in_square(3, 3, 2, 2, &|_| true, &mut |d| {
        if !wide(&d) {
            params(&Q[..1], d, f)
        }
    });
    stars(1, 2, t.pick(3, 5), &mut |d| params(&Q[..1], d, f));
    hole_in_poly(4, 4, 4, 3, 1, &mut |d| params(&Q[..1], d, f));
    hole_in_poly(5, 5, 3, 3, t.pick(30, 3), &mut |d| params(&Q[..1], d, f));
    one_hole(3, 3, t.pick(5, 6), false, &mut |d| params(&Q[..1], d, f));
}

fn fam_ends(t: Tier, f: Emit) {
    fam_any(t, f);
    // sharp corners on a map (recorded findings)
    for fr in [23, 24] {
        f(Dom::new(vec![(4, 0), (1, 4), (0, 3)]).frame(fr).refine(1.42, None));
    }
}

pub fn checks() -> Vec<RefineCheck> {
    vec![
        RefineCheck {
            id: "C07",
            bounds: |t| bounds_text(t, true),
            fam: fam_any,
            judge: keeps,
            assume: &["positions are compared within 1e-9 grid units and a thousand times the rounding of the coordinates"],
        },
        RefineCheck {
            id: "C08",
            bounds: |t| bounds_text(t, false),
            fam: fam_wide,
            judge: bounded,
            assume: &["constraints meet at 90 degrees or more, ratio bounds of 1.42 and above", "bounds are compared within 1e-9 and the rounding of the coordinates"],
        },
        RefineCheck {
            id: "C09",
            bounds: |t| bounds_text(t, true),
            fam: fam_ends,
            judge: any,
            assume: &["not terminating is concluded after 6 million hash operations, 1 GB or the CPU limit of a case"],
        },
        RefineCheck {
            id: "C40",
            bounds: |t| bounds_text(t, true),
            fam: fam_any,
            judge: delaunay,
            assume: &["a vertex counts as inside a circumcircle when its power times the area of the triangle exceeds 1e-11 and the rounding of the coordinates"],
        },
    ]
}

fn bounds_text(t: Tier, sharp: bool) -> String {
    format!(
        "refinement with ratio and area bounds (1.42, none), (2, 1), (5, 0.5) of polygons on the 3x3 grid with up to {} corners and on the 4x4 grid with up to {}, rectangles up to {}x3 in 25 frames, squares with one or two holes, plates, with 1 to 3 segments, with vertices on a 3x3 grid and near the sides, segments and holes close to a long segment, a square refined down to 1/{} of its area; every schedule with one deviation for small rectangles{}",
        t.pick(8, 9), t.pick(6, 8), t.pick(6, 12), t.pick(512, 2048),
        if sharp { "; also polygons with sharp corners, needles, sharp meetings of segments and stars" } else { "" }
    )
}

// ------------------------------------------------------------------ C10 encroachment

pub fn encroachment() -> PlanCheck<Enc> {
    PlanCheck {
        id: "C10",
        bounds: |t| format!("removal of encroachments on the meshes of {}", bounds_text(t, false)),
        gen: |t, f| {
            let mut seen: HashSet<String> = HashSet::new();
            fam_wide(t, &mut |mut d| {
                d.refine = None;
                if matches!(d.plan, Plan::Deviate { depth: 2, .. }) {
                    return;
                }
                if seen.insert(serde_json::to_string(&d).unwrap()) {
                    f(Enc(d))
                }
            })
        },
        run: enc_run,
        assume: &["constraints meet at 90 degrees or more"],
    }
}

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct Enc(Dom);
impl Planned for Enc {
    fn plan(&self) -> &Plan {
        &self.0.plan
    }
    fn set_plan(&mut self, p: Plan) {
        self.0.plan = p;
    }
}

fn enc_run(c: &Enc) -> Result<Ran, String> {
    let d = &c.0;
    let slack = 1e-9 + 1e3 * d.fr().grain();
    let mut t = d.build()?;
    t.triangulate();
    let constraints: HashSet<Rc<Edge>> = t
        .holes
        .iter()
        .flat_map(|h| h.into_edges())
        .chain(t.boundary.into_edges())
        .chain(t.segments.iter().cloned())
        .collect();
    let before: HashSet<Rc<Triangle>> = t.triangulation.borrow().triangles.iter().cloned().collect();
    let old_vertices = t.triangulation.borrow().vertices();
    // the table of encroachments the removal starts from
    let mut table = Default::default();
    distribute_encroachments(&constraints, &old_vertices, &mut table);
    for e in constraints.iter() {
        let l2 = (e.v1.x - e.v2.x).powi(2) + (e.v1.y - e.v2.y).powi(2);
        let listed = table.get(e);
        ensure!(listed.map_or(true, |l| !l.is_empty()), "{} is listed with no vertex", e);
        for v in old_vertices.iter() {
            let (ax, ay, bx, by) = (e.v1.x - v.x, e.v1.y - v.y, e.v2.x - v.x, e.v2.y - v.y);
            let inside = (ax * bx + ay * by) / l2;
            let said = listed.map_or(false, |l| l.contains(v));
            ensure!(said || inside > -slack, "{} encroaches upon {} and is not listed", v, e);
            ensure!(!said || inside < slack, "{} is listed as encroaching upon {}", v, e);
        }
    }
    for e in table.keys() {
        ensure!(constraints.contains(e), "{} is listed as encroached, but is no constraint", e);
    }
    let (map, included, removed) =
        unencroach(&mut t.triangulation.borrow_mut(), &constraints, &Some(Rc::clone(&t.boundary)), &t.holes);
    let tri = t.triangulation.borrow();
    let m = fextract(d.fr(), &tri)?;
    keeps(d, &m)?;
    // the constraints now in force
    let replaced: HashSet<Rc<Edge>> = map.values().cloned().collect();
    let mut now: Vec<Rc<Edge>> = constraints.iter().filter(|e| !replaced.contains(*e)).cloned().collect();
    now.extend(map.keys().cloned());
    for e in &now {
        ensure!(
            tri.adjacency.contains_key(e) || tri.adjacency.contains_key(&Rc::new(e.opposite())),
            "subsegment {} is not in the mesh",
            e
        );
        for v in old_vertices.iter() {
            let inside = {
                let (ax, ay, bx, by) = (e.v1.x - v.x, e.v1.y - v.y, e.v2.x - v.x, e.v2.y - v.y);
                let l2 = (e.v1.x - e.v2.x).powi(2) + (e.v1.y - e.v2.y).powi(2);
                (ax * bx + ay * by) / l2 < -slack
            };
            ensure!(!inside, "vertex {} still encroaches upon {}", v, e);
        }
    }
    // every replaced constraint is covered by its own pieces
    for e in replaced.iter() {
        ensure!(constraints.contains(e), "{} was replaced, but was no constraint", e);
        let len = |e: &Edge| ((e.v1.x - e.v2.x).powi(2) + (e.v1.y - e.v2.y).powi(2)).sqrt();
        let sum: f64 = map.iter().filter(|(_, o)| *o == e).map(|(s, _)| len(s)).sum();
        ensure!((sum - len(e)).abs() < slack * len(e), "the pieces of {} measure {} instead of {}", e, sum, len(e));
    }
    // no constraint was split without need
    for e in replaced.iter() {
        let need = old_vertices.iter().any(|v| {
            let (ax, ay, bx, by) = (e.v1.x - v.x, e.v1.y - v.y, e.v2.x - v.x, e.v2.y - v.y);
            let l2 = (e.v1.x - e.v2.x).powi(2) + (e.v1.y - e.v2.y).powi(2);
            (ax * bx + ay * by) / l2 < slack
        });
        ensure!(need, "{} was split although nothing encroached upon it", e);
    }
    for tr in included.iter() {
        ensure!(tri.triangles.contains(tr), "{} is reported as included and is not in the mesh", tr);
    }
    for tr in tri.triangles.iter() {
        ensure!(before.contains(tr) || included.contains(tr), "{} is new and is not reported", tr);
    }
    for tr in before.iter() {
        ensure!(tri.triangles.contains(tr) || removed.contains(tr), "{} is gone and is not reported", tr);
    }
    let f: BTreeSet<(i64, i64)> = m.pts.iter().map(|p| ((p.0 * 1e6).round() as i64, (p.1 * 1e6).round() as i64)).collect();
    Ok(Ran { ops: 2 + map.len() as u64, state: fingerprint(&f) })
}

// ------------------------------------------------------------------ C42 the report of the splitting

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct Spl(Dom);
impl Planned for Spl {
    fn plan(&self) -> &Plan {
        &self.0.plan
    }
    fn set_plan(&mut self, p: Plan) {
        self.0.plan = p;
    }
}

type Seg = ((f64, f64), (f64, f64));

/// how far p is from lying on s
fn off(s: &Seg, p: (f64, f64)) -> f64 {
    fdist(s.0, p) + fdist(p, s.1) - fdist(s.0, s.1)
}

fn spl_run(c: &Spl) -> Result<Ran, String> {
    let d = &c.0;
    let r = d.refine.unwrap();
    let mut t = d.build()?;
    t.triangulate();
    let given: HashSet<Rc<Edge>> = t
        .holes
        .iter()
        .flat_map(|h| h.into_edges())
        .chain(t.boundary.into_edges())
        .chain(t.segments.iter().cloned())
        .collect();
    let boundary = Some(Rc::clone(&t.boundary));
    let (first, _, _) = unencroach(&mut t.triangulation.borrow_mut(), &given, &boundary, &t.holes);
    let gone: HashSet<Rc<Edge>> = first.values().cloned().collect();
    let constraints: HashSet<Rc<Edge>> = given
        .iter()
        .filter(|e| !gone.contains(*e) && !gone.contains(&Rc::new(e.opposite())))
        .chain(first.keys())
        .cloned()
        .collect();
    let s = d.fr().scale();
    let params = RefineParams { quality_ratio: r.quality, max_area: r.area.map(|a| a * s * s) };
    let map = split_irregular(&mut t.triangulation.borrow_mut(), &params, &constraints, &boundary, &t.holes);
    let tri = t.triangulation.borrow();
    let m = fextract(d.fr(), &tri)?;
    keeps(d, &m)?;
    let at = |e: &Edge| (d.fr().back(e.v1.x, e.v1.y), d.fr().back(e.v2.x, e.v2.y));
    let eps = m.tol;
    // pieces come from something that is no longer there, and lie on it
    for (piece, from) in map.iter() {
        let (p, f) = (at(piece), at(from));
        ensure!(off(&f, p.0) < eps && off(&f, p.1) < eps, "{} is no piece of {}", piece, from);
        ensure!(fdist(p.0, p.1) < fdist(f.0, f.1) - eps, "{} is as long as {}, which it is a piece of", piece, from);
        ensure!(
            constraints.contains(from) || constraints.contains(&Rc::new(from.opposite())),
            "{} comes from {}, which is no constraint",
            piece,
            from
        );
        ensure!(!tri.edges().contains(from), "{} was split and is still in the mesh", from);
    }
    // whatever is in force is in the mesh, and there is no piece but of constraints
    let replaced: HashSet<Rc<Edge>> = map.values().cloned().collect();
    let free: Vec<&Rc<Edge>> = constraints.iter().filter(|e| !replaced.contains(*e) && !replaced.contains(&Rc::new(e.opposite()))).collect();
    for e in map.keys().chain(free.iter().copied()) {
        ensure!(tri.edges().contains(e) || tri.edges().contains(&Rc::new(e.opposite())), "{} is in force and not in the mesh", e);
    }
    for e in map.keys() {
        let p = at(e);
        ensure!(
            constraints.iter().any(|c| off(&at(c), p.0) < eps && off(&at(c), p.1) < eps),
            "{} is a piece of no constraint",
            e
        );
    }
    // split constraints are made up of their pieces
    for c in constraints.iter() {
        if !replaced.contains(c) && !replaced.contains(&Rc::new(c.opposite())) {
            continue;
        }
        let f = at(c);
        let mut parts: Vec<(f64, f64)> = vec![];
        for e in map.keys() {
            let p = at(e);
            if off(&f, p.0) < eps && off(&f, p.1) < eps {
                let (a, b) = (fdist(f.0, p.0), fdist(f.0, p.1));
                parts.push((a.min(b), a.max(b)));
            }
        }
        parts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut end = 0.0;
        for p in &parts {
            ensure!((p.0 - end).abs() < 1e-6, "the pieces of {} leave out or repeat what is between {} and {} of it", c, end, p.0);
            end = p.1;
        }
        ensure!((end - fdist(f.0, f.1)).abs() < 1e-6, "the pieces of {} end at {} of {}", c, end, fdist(f.0, f.1));
    }
    let f: BTreeSet<(i64, i64)> = m.pts.iter().map(|p| ((p.0 * 1e6).round() as i64, (p.1 * 1e6).round() as i64)).collect();
    Ok(Ran { ops: 3 + map.len() as u64, state: fingerprint(&f) })
}

pub fn splits() -> PlanCheck<Spl> {
    PlanCheck {
        id: "C42",
        bounds: |t| format!("the report of {}", bounds_text(t, true)),
        gen: |t, f| fam_any(t, &mut |d| f(Spl(d))),
        run: spl_run,
        assume: &["lengths and positions are compared within 1e-6 grid units"],
    }
}
