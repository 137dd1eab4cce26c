//! Compositions of shapes, from the JSON text to the mesh.
use crate::json::*;
use crate::reg::*;
use app::json_serializar::models::output::TriangulationOutput;
use kit::dom::*;
use kit::engine::*;
use kit::ensure;
use kit::frame::*;
use kit::geo::*;
use kit::model::*;
use kit::sched::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use Act::*;
use Shape::*;

const fn fr(exp: i32, rot: u8, ox: i64, oy: i64) -> Frame {
    Frame { exp, rot, ox, oy, ..kit::frame::FRAMES[0] }
}
/// Half units to the plane; diamonds made by the circle parser have their
/// corners on the grid only at coordinates that swallow the sine's last bit,
/// which the first three do.
pub const PLACES: [Frame; 9] = [
    fr(-1, 0, 16, 16),
    fr(-1, 1, 24, 16),
    fr(0, 0, 32, 64),
    fr(-1, 0, 0, 0),
    fr(0, 2, 5, 5),
    fr(-1, 3, -2, -2),
    // with rounding: in tenths, turned, as on a map
    FRAMES[17],
    FRAMES[20],
    FRAMES[23],
];
const ROUND: usize = 3;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Comp {
    pub place: usize,
    pub acts: Vec<Act>,
    plan: Plan,
}
impl Planned for Comp {
    fn plan(&self) -> &Plan {
        &self.plan
    }
    fn set_plan(&mut self, p: Plan) {
        self.plan = p;
    }
}

/// The meanings of a composition, or None when it is not judged.
pub fn meaning(acts: &[Act]) -> Option<BTreeSet<Out>> {
    let mut inc = vec![];
    let mut rem = vec![];
    for a in acts {
        match a {
            Inc(s) => inc.push(fill_poly(&s.corners())),
            Rem(s) => rem.push(fill_poly(&s.corners())),
            _ => {}
        }
    }
    compose(&inc, &rem)
}

fn comp_run(c: &Comp) -> Result<Ran, String> {
    let f = &PLACES[c.place];
    let input = read(&document(f, &c.acts, "\"quality\": 1.0"))?;
    let want = meaning(&c.acts).ok_or("not judged")?;
    let ops = c.acts.len() as u64;
    let mut t = match app::triangulator_interface::parse(&input) {
        Err(_) => {
            // refused: by the composition, or by a constraint outside of every meaning of it
            ensure!(
                want.iter().any(|w| match w {
                    Out::Refused => true,
                    Out::Region(r) => constrain(*r, &c.acts).is_none(),
                }),
                "refused, but it means {:?}",
                want.iter().map(|w| if let Out::Region(r) = w { loops(*r) } else { vec![] }).collect::<Vec<_>>()
            );
            return Ok(Ran { ops, state: 0 });
        }
        Ok((t, p)) => {
            ensure!(p.quality_ratio == 1.0 && p.max_area.is_none(), "the parameters became {:?} {:?}", p.quality_ratio, p.max_area);
            t
        }
    };
    t.triangulate();
    let out = TriangulationOutput::from_triangulator(&input, &t);
    let mesh = triangles(f, &out)?;
    ensure!(mesh.iter().all(|t| orient(t[0], t[1], t[2]) > 0), "a triangle is turned over");
    let sides = steps(mesh.iter().flat_map(|t| [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]));
    let mut why = String::new();
    for w in &want {
        let Out::Region(r) = w else {
            why += "; it means nothing";
            continue;
        };
        if steps(sides_of(*r)) != sides {
            why += &format!("; it means {:?}", loops(*r));
            continue;
        }
        let Some(m) = constrain(*r, &c.acts) else {
            why += "; constraints lie outside";
            continue;
        };
        // vertices: the corners and constraints, and points of the input on the boundary
        let have: BTreeSet<P> = mesh.iter().flatten().copied().collect();
        let mut need: BTreeSet<P> = loops(*r).concat().into_iter().collect();
        need.extend(m.verts.iter());
        need.extend(m.segs.iter().flat_map(|s| [s.0, s.1]));
        if let Some(p) = need.iter().find(|p| !have.contains(p)) {
            why += &format!("; the vertex {:?} is missing", p);
            continue;
        }
        let edge = rim(*r);
        if let Some(p) = have.iter().find(|p| !need.contains(p) && !on_rim(&edge, *r, **p)) {
            why += &format!("; {:?} is not a vertex of the description", p);
            continue;
        }
        ensure!(have.len() == out.coordinates.len(), "{} points for {} vertices", out.coordinates.len(), have.len());
        let edges: BTreeSet<(P, P)> = mesh.iter().flat_map(|t| [key(t[0], t[1]), key(t[1], t[2]), key(t[2], t[0])]).collect();
        if let Some(s) = m.segs.iter().find(|s| !edges.contains(s)) {
            why += &format!("; the segment {:?} is missing", s);
            continue;
        }
        return Ok(Ran { ops: ops + 2, state: fingerprint(&(r, mesh.len(), have, m)) });
    }
    Err(format!("the mesh covers {:?}{}", outline(&sides), why))
}

fn on_rim(rim: &BTreeSet<P>, r: Reg, p: P) -> bool {
    rim.contains(&p) || sides_of(r).iter().any(|s| on_segment(s.0, s.1, p))
}
fn outline(s: &BTreeMap<(P, P), i32>) -> Vec<(P, P)> {
    s.iter().map(|(s, n)| if *n > 0 { *s } else { (s.1, s.0) }).collect()
}

/// The constraints on a region; None when one is outside.
pub fn constrain(r: Reg, acts: &[Act]) -> Option<Model> {
    let l = loops(r);
    let outer = l.iter().find(|l| area2(l) > 0).unwrap().clone();
    let mut m = Model::default();
    for h in l.iter().filter(|l| area2(l) < 0) {
        m.holes.insert(h.clone());
    }
    let segs: Vec<(P, P)> = acts.iter().flat_map(|a| if let Seg(s) | Asm(s) = a { s.clone() } else { vec![] }).collect();
    let verts: Vec<P> = acts.iter().flat_map(|a| if let Ver(v) = a { v.clone() } else { vec![] }).collect();
    if m.insert_segments(&outer, &segs) != Answer::Ok || m.insert_vertices(&outer, &verts) != Answer::Ok {
        return None;
    }
    Some(m)
}

// ------------------------------------------------------------------ shapes

fn double(p: &[P]) -> Vec<P> {
    scale(p, 2)
}
/// rectangles of w x h cells
fn rects(w: i64, h: i64) -> Vec<Shape> {
    let mut v = vec![];
    for x0 in 0..w {
        for x1 in x0 + 1..=w {
            for y0 in 0..h {
                for y1 in y0 + 1..=h {
                    v.push(Poly(double(&[(x0, y0), (x1, y0), (x1, y1), (x0, y1)])));
                }
            }
        }
    }
    v
}
/// polygons along grid lines and diagonals
fn polys(w: i64, k: usize) -> Vec<Shape> {
    let ok = |p: &Vec<P>| {
        (0..p.len()).all(|i| {
            let (a, b) = (p[i], p[(i + 1) % p.len()]);
            let d = ((b.0 - a.0).abs(), (b.1 - a.1).abs());
            d.0 == 0 || d.1 == 0 || d.0 == d.1
        })
    };
    simple_polygons(&grid(w + 1, w + 1), k, false).into_iter().filter(|p| ok(p)).map(|p| Poly(double(&p))).collect()
}
fn diamonds(w: i64) -> Vec<Shape> {
    let mut v = vec![];
    for r in 1..=w / 2 {
        for x in r..=w - r {
            for y in r..=w - r {
                v.push(Circle((2 * x, 2 * y), 2 * r, 4));
            }
        }
    }
    v
}
fn moved(s: &Shape, d: P) -> Shape {
    match s {
        Poly(p) => Poly(p.iter().map(|p| (p.0 + d.0, p.1 + d.1)).collect()),
        Circle(c, r, n) => Circle((c.0 + d.0, c.1 + d.1), *r, *n),
    }
}
fn every(v: Vec<Shape>, n: usize) -> Vec<Shape> {
    v.into_iter().step_by(n).collect()
}

struct Gen<'a> {
    n: usize,
    plan: Plan,
    f: &'a mut dyn FnMut(Comp),
}
impl Gen<'_> {
    fn put(&mut self, acts: Vec<Act>) {
        let round = acts.iter().any(|a| matches!(a, Inc(Circle(..)) | Rem(Circle(..))));
        let place = self.n % if round { ROUND } else { PLACES.len() };
        self.n += 1;
        if meaning(&acts).is_some() {
            (self.f)(Comp { place, acts, plan: self.plan.clone() });
        }
    }
}

pub fn compositions(t: Tier, f: &mut dyn FnMut(Comp)) {
    let mut g = Gen { n: 0, plan: Plan::Base(3), f };
    let four = polys(3, 4);
    let three = polys(3, 3);
    // one shape, from every start, in both directions
    for s in polys(2, 3).into_iter().chain(polys(2, 4)).chain(polys(2, 5)).chain(polys(2, 6)) {
        let Poly(p) = &s else { unreachable!() };
        for k in 0..p.len() {
            let mut q = p.clone();
            q.rotate_left(k);
            g.put(vec![Inc(Poly(q.clone()))]);
            q.reverse();
            g.put(vec![Inc(Poly(q))]);
        }
    }
    for s in diamonds(5) {
        g.put(vec![Inc(s)]);
    }
    // two shapes
    let r3 = rects(3, 3);
    let r2: Vec<Shape> = rects(2, 2);
    for a in &r3 {
        for b in &r3 {
            g.put(vec![Inc(a.clone()), Inc(b.clone())]);
            g.put(vec![Inc(a.clone()), Rem(b.clone())]);
        }
    }
    let mix: Vec<Shape> = every(three.clone(), t.pick(5, 2)).into_iter().chain(every(four.clone(), t.pick(11, 3))).chain(diamonds(4)).collect();
    for (i, a) in mix.iter().enumerate() {
        for (j, b) in mix.iter().enumerate() {
            if (i + j) % t.pick(3, 1) == 0 {
                g.put(vec![Inc(a.clone()), Inc(b.clone())]);
                g.put(vec![Rem(b.clone()), Inc(a.clone())]);
            }
        }
    }
    // a plate with two removals, both directions of drawing
    let plate = Poly(double(&[(0, 0), (5, 0), (5, 5), (0, 5)]));
    let cut: Vec<Shape> = every(rects(5, 5), t.pick(7, 3)).into_iter().chain(every(diamonds(5), t.pick(3, 1))).chain(every(mix.clone(), t.pick(9, 4)).iter().map(|s| moved(s, (2, 2)))).collect();
    for (i, a) in cut.iter().enumerate() {
        for (j, b) in cut.iter().enumerate() {
            let b = if (i + j) % 2 == 0 { b.clone() } else { turned(b) };
            g.put(vec![Inc(plate.clone()), Rem(a.clone()), Rem(b)]);
        }
    }
    // three removals
    let few = every(cut.clone(), t.pick(6, 5));
    for a in &few {
        for b in &few {
            for c in &few {
                g.put(vec![Rem(a.clone()), Inc(plate.clone()), Rem(b.clone()), Rem(c.clone())]);
            }
        }
    }
    // three includes, two and two
    let inc: Vec<Shape> = every(r3.clone(), t.pick(4, 2));
    for a in &inc {
        for b in &inc {
            for c in &inc {
                g.put(vec![Inc(a.clone()), Inc(b.clone()), Inc(c.clone())]);
                g.put(vec![Inc(a.clone()), Inc(b.clone()), Rem(c.clone())]);
            }
        }
    }
    // a third shape reaching over two that are apart, in every place of the list
    let joined = |a: &Shape, b: &Shape| parts(fill_poly(&a.corners()) | fill_poly(&b.corners())).len() == 1;
    let mut k = 0;
    for (i, a) in r3.iter().enumerate() {
        for b in r3.iter().take(i).filter(|b| !joined(a, b)) {
            for c in r3.iter().chain(&diamonds(3)).filter(|c| joined(a, c) && joined(c, b)) {
                k += 1;
                if k % t.pick(3, 1) != 0 {
                    continue;
                }
                let mut l = vec![a.clone(), b.clone()];
                l.insert(k / 3 % 3, c.clone());
                g.put(l.iter().map(|s| Inc(s.clone())).collect());
                let mut acts: Vec<Act> = l.iter().map(|s| Rem(moved(s, (2, 2)))).collect();
                acts.insert(k % 4, Inc(plate.clone()));
                g.put(acts);
            }
        }
    }
    let two = every(mix.clone(), t.pick(11, 12));
    for a in &two {
        for b in &two {
            for c in &r2 {
                for d in every(r2.clone(), t.pick(3, 1)) {
                    g.put(vec![Inc(a.clone()), Inc(b.clone()), Rem(moved(c, (2, 2))), Rem(moved(&d, (2, 0)))]);
                }
            }
        }
    }
    // constraints: accepted exactly inside, present in the mesh
    let hole = Poly(double(&[(2, 2), (3, 2), (3, 3), (2, 3)]));
    let notch = Poly(double(&[(4, 1), (6, 1), (6, 2), (4, 2)]));
    let pts = grid(5, 5);
    for acts in [vec![Inc(plate.clone())], vec![Inc(plate.clone()), Rem(hole.clone())], vec![Inc(plate.clone()), Rem(notch), Rem(Circle((4, 6), 2, 4))]] {
        for i in 0..pts.len() {
            let p = (2 * pts[i].0, 2 * pts[i].1);
            let mut a = acts.clone();
            a.push(Ver(vec![p]));
            g.put(a);
            for j in 0..i {
                let q = (2 * pts[j].0, 2 * pts[j].1);
                let mut a = acts.clone();
                a.insert(0, Seg(vec![(p, q)]));
                g.put(a);
                let mut a = acts.clone();
                a.push(Asm(vec![(p, q)]));
                a.push(Ver(vec![(2, 2)]));
                g.put(a);
                let mut a = acts.clone();
                a.push(Ver(vec![p]));
                a.push(Ver(vec![q]));
                g.put(a);
            }
        }
    }
    let s: Vec<(P, P)> = kit::fam::segments(&kit::fam::inner(3, 3)).into_iter().map(|(a, b)| ((2 * a.0, 2 * a.1), (2 * b.0, 2 * b.1))).collect();
    for (i, &a) in s.iter().enumerate() {
        for &b in s.iter().take(i).step_by(t.pick(3, 1)) {
            // (crossings have to be on the half-unit grid)
            if proper_cross(a.0, a.1, b.0, b.1) && cross_point(a.0, a.1, b.0, b.1).map_or(true, |(x, y)| x.d != 1 || y.d != 1) {
                continue;
            }
            g.put(vec![Inc(plate.clone()), Seg(vec![a]), Asm(vec![b])]);
            g.put(vec![Asm(vec![a, b]), Inc(plate.clone()), Ver(vec![(4, 4), (8, 8)])]);
        }
    }
    // every deviation of the schedule for small ones
    g.plan = Plan::Deviate { policy: 0, depth: 1 };
    for a in every(r2.clone(), 2) {
        for b in every(r2.clone(), 2) {
            g.put(vec![Inc(a.clone()), Inc(b.clone())]);
            g.put(vec![Inc(plate.clone()), Rem(moved(&a, (2, 2))), Rem(moved(&b, (4, 4)))]);
        }
    }
}
fn turned(s: &Shape) -> Shape {
    match s {
        Poly(p) => Poly(p.iter().rev().copied().collect()),
        c => c.clone(),
    }
}

pub fn checks() -> Vec<PlanCheck<Comp>> {
    vec![PlanCheck {
        id: "C34",
        bounds: |t| format!("JSON descriptions of up to 4 shapes (rectangles, lattice polygons with grid and diagonal sides in both directions, diamond circles) on a 5x5 board, with segments (paired or assembled) and vertices, in 9 places, every pair of 3x3 rectangles included or removed, three of which one reaches over the others{}; three hash orders each, every single deviation for small ones; compositions in which shapes meet in single points are left out", t.pick(", other combinations thinned evenly", "")),
        gen: compositions,
        run: comp_run,
        assume: &["a composition whose meaning depends on the order of its removals may have any of those meanings"],
    }]
}
