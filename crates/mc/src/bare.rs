//! Meshes apart from domains: the container, bare sets of points, and the
//! independence of a mesh from how its domain is written down.
use kit::dom::*;
use kit::engine::*;
use kit::ensure;
use kit::fam::*;
use kit::fnc::FnCheck;
use kit::frame::*;
use kit::geo::*;
use kit::mesh::*;
use kit::sched::*;
use kit::HashSet;
use nlsn_delaunay::elements::{edge::Edge, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::planar::triangulation::Triangulation;
use nlsn_delaunay::planar::triangulation_procedures::vertices::include;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// ------------------------------------------------------------------ C15 one mesh per domain

/// A domain and another description of the same domain.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Twin {
    one: Dom,
    other: Dom,
}
impl Planned for Twin {
    fn plan(&self) -> &Plan {
        &self.other.plan
    }
    fn set_plan(&mut self, p: Plan) {
        self.other.plan = p;
    }
}

fn mesh_of(d: &Dom) -> Result<Mesh, String> {
    let mut t = d.build()?;
    t.triangulate();
    let m = extract(d.fr(), &t.triangulation.borrow());
    m
}

/// No inner edge could be exchanged for another one: there is a single
/// constrained Delaunay triangulation.
fn single(d: &Dom, m: &Mesh) -> bool {
    let w = d.want();
    let mut opp: BTreeMap<(P, P), P> = BTreeMap::new();
    for t in &m.solid {
        for i in 0..3 {
            opp.insert((t[i], t[(i + 1) % 3]), t[(i + 2) % 3]);
        }
    }
    opp.iter().all(|(&(a, b), &c)| {
        w.pieces.contains(&(a.min(b), a.max(b)))
            || match opp.get(&(b, a)) {
                Some(&d) => incircle(a, b, c, d) != 0,
                None => true,
            }
    })
}

fn twin_run(c: &Twin) -> Result<Ran, String> {
    let m = mesh_of(&c.one)?;
    if !single(&c.one, &m) {
        return Ok(Ran { ops: 1, state: 0 });
    }
    let n = mesh_of(&c.other)?;
    if let Some(t) = m.solid.iter().find(|t| !n.solid.contains(t)) {
        return Err(format!("triangle {:?} is only in the mesh of one description", t));
    }
    if let Some(t) = n.solid.iter().find(|t| !m.solid.contains(t)) {
        return Err(format!("triangle {:?} is only in the mesh of the other description", t));
    }
    ensure!(m.ghosts == n.ghosts, "the meshes have different ghost triangles: {:?} and {:?}", m.ghosts, n.ghosts);
    Ok(Ran { ops: 2, state: fingerprint(&m) })
}

/// Other ways to write a domain down.
fn twins(d: &Dom, n: usize, plan: &Plan, f: &mut dyn FnMut(Twin)) {
    let mut put = |o: Dom| f(Twin { one: d.clone(), other: o.plan(plan.clone()) });
    let turn = |d: &Dom, k: usize| {
        let mut o = d.clone();
        let l = o.outer.len();
        o.outer.rotate_left(k % l);
        for h in o.holes.iter_mut() {
            let l = h.len();
            h.rotate_left(k % l);
        }
        for s in o.segs.iter_mut() {
            if k % 2 == 1 {
                *s = (s.1, s.0);
            }
        }
        o
    };
    let back = |d: &Dom| {
        let mut o = d.clone();
        o.holes.reverse();
        o.segs.reverse();
        o.verts.reverse();
        o
    };
    put(d.clone());
    for k in 1..d.outer.len() {
        put(turn(d, k).order((k % 3) as u8));
    }
    put(back(d).order((n % 3) as u8));
    put(turn(&back(d), n).order(((n + 1) % 3) as u8).frame(cyc(n)));
    // every vertex twice, segments in both directions
    let mut o = d.clone();
    o.verts.extend(d.verts.iter().copied());
    let both: Vec<(P, P)> = d.segs.iter().map(|s| (s.1, s.0)).collect();
    o.segs.extend(both);
    put(o);
}

fn twin_gen(t: Tier, f: &mut dyn FnMut(Twin)) {
    let mut n = 0;
    let mut go = |d: Dom, plan: Plan, f: &mut dyn FnMut(Twin)| {
        n += 1;
        twins(&d.plan(Plan::Base(1)), n, &plan, f)
    };
    let b = || Plan::Base(t.pick(2, 4));
    for k in 3..=t.pick(6, 8) {
        boundaries(4, 3, k, true, false, &mut |d| go(d, b(), f));
    }
    for k in 3..=t.pick(4, 6) {
        boundaries(4, 4, k, true, false, &mut |d| go(d, b(), f));
    }
    verts_in_poly(4, 4, 4, 2, t.pick(3, 1), &mut |d| go(d, b(), f));
    verts_in_poly(5, 5, 4, 3, t.pick(200, 10), &mut |d| go(d, b(), f));
    verts_in_poly(5, 4, 5, 2, t.pick(60, 4), &mut |d| go(d, b(), f));
    hole_in_poly(5, 5, 3, 3, t.pick(6, 1), &mut |d| go(d, b(), f));
    hole_in_poly(5, 5, 4, 3, t.pick(60, 4), &mut |d| go(d, b(), f));
    seg_in_poly(4, 4, 4, t.pick(2, 1), &mut |d| go(d, b(), f));
    seg_in_poly(5, 4, 5, t.pick(30, 2), &mut |d| go(d, b(), f));
    // irregular outlines around holes, segments and vertices
    let out = vec![(0, 0), (9, 1), (11, 8), (4, 10), (-1, 6)];
    mixed(3, 3, t.pick(20, 2), &mut |mut d| {
        let wide = |p: &mut P| *p = (2 * p.0 + p.1 % 2, 2 * p.1);
        d.outer = out.clone();
        d.holes.iter_mut().for_each(|h| h.iter_mut().for_each(wide));
        d.verts.iter_mut().for_each(wide);
        d.segs.iter_mut().for_each(|s| {
            wide(&mut s.0);
            wide(&mut s.1)
        });
        if !d.holes.iter().all(|h| simple(h, false) && strictly_inside(&d.outer, h)) {
            return;
        }
        if !d.segs.iter().all(|&s| seg_free(&d.outer, s, true) && d.holes.iter().all(|h| seg_free(h, s, false))) {
            return;
        }
        if d.segs.iter().enumerate().any(|(i, s)| d.segs[..i].iter().any(|r| seg_touch(s.0, s.1, r.0, r.1))) {
            return;
        }
        if d.verts.iter().any(|&v| in_poly(&d.outer, v) <= 0 || d.holes.iter().any(|h| in_poly(h, v) >= 0)) {
            return;
        }
        go(d, b(), f)
    });
    for k in 3..=t.pick(4, 5) {
        boundaries(3, 3, k, true, false, &mut |d| go(d, Plan::Deviate { policy: 0, depth: 1 }, f));
    }
}

pub fn one_mesh() -> PlanCheck<Twin> {
    PlanCheck {
        id: "C15",
        bounds: |t| format!("polygons of the 4x3 grid with up to {} corners and of the 4x4 grid with up to {}, polygons of grids up to 5x5 with vertices, a hole or a segment inside, mixtures in an irregular outline; each written with every start corner, in reverse, with the elements given in 3 orders, repeated and reversed, in 25 frames; every schedule with one deviation for small polygons", t.pick(6, 8), t.pick(4, 6)),
        gen: twin_gen,
        run: twin_run,
        assume: &["only meshes with no four visible vertices on a circle are compared (there the constrained Delaunay triangulation is unique)"],
    }
}

// ------------------------------------------------------------------ C16 bare points

/// Points included in batches; the first two of the first batch are the initial segment.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Bare {
    frame: u8,
    batches: Vec<Vec<P>>,
    plan: Plan,
}
impl Planned for Bare {
    fn plan(&self) -> &Plan {
        &self.plan
    }
    fn set_plan(&mut self, p: Plan) {
        self.plan = p;
    }
}

fn flat(p: &BTreeSet<P>) -> bool {
    let v: Vec<P> = p.iter().copied().collect();
    v.len() < 3 || v[2..].iter().all(|&q| orient(v[0], v[1], q) == 0)
}

fn bare_run(c: &Bare) -> Result<Ran, String> {
    let f = at(c.frame);
    let mut t = Triangulation::from_initial_segment((&f.v(c.batches[0][0]), &f.v(c.batches[0][1])));
    let mut given: BTreeSet<P> = c.batches[0][..2].iter().copied().collect();
    let mut last = 0;
    for (i, b) in c.batches.iter().enumerate() {
        let new = if i == 0 { &b[2..] } else { &b[..] };
        given.extend(new.iter().copied());
        let before: HashSet<Rc<Triangle>> = t.triangles.iter().cloned().collect();
        let (inc, rem) = include(&mut t, new.iter().map(|&p| f.v(p)).collect(), &HashSet::default(), &None, &HashSet::default());
        let m = extract(f, &t)?;
        let all: Vec<P> = given.iter().copied().collect();
        m.covers(&hull(&all), &[])?;
        ensure!(m.vertices() == given, "the mesh has the vertices {:?} instead of {:?}", m.vertices(), given);
        m.delaunay(&|_, _| false)?;
        m.ghost_ring()?;
        // the report accounts for the difference
        for tr in inc.iter() {
            ensure!(t.triangles.contains(tr) || rem.contains(tr), "{} is reported as included and is not in the mesh", tr);
        }
        for tr in rem.iter() {
            ensure!(before.contains(tr) || inc.contains(tr), "{} is reported as removed and never was in the mesh", tr);
        }
        for tr in t.triangles.iter() {
            ensure!(before.contains(tr) || inc.contains(tr), "{} is new and is not reported", tr);
        }
        for tr in before.iter() {
            ensure!(t.triangles.contains(tr) || rem.contains(tr), "{} is gone and is not reported", tr);
        }
        last = fingerprint(&m);
    }
    Ok(Ran { ops: c.batches.len() as u64, state: last })
}

fn bare_gen(t: Tier, f: &mut dyn FnMut(Bare)) {
    let mut n = 0usize;
    // every set of points; starts, splits into calls and orders in turn
    let mut sets = |g: &[P], k: usize, all: bool, plan: Plan, f: &mut dyn FnMut(Bare)| {
        subsets(g.len(), k, &mut |ix| {
            let pts: Vec<P> = ix.iter().map(|&i| g[i]).collect();
            if flat(&pts.iter().copied().collect()) {
                return;
            }
            for i in 0..k {
                for j in 0..k {
                    if i == j {
                        continue;
                    }
                    n += 1;
                    if !all && n % 5 != 0 {
                        continue;
                    }
                    let mut rest: Vec<P> = (0..k).filter(|&x| x != i && x != j).map(|x| pts[x]).collect();
                    let l = rest.len();
                    rest.rotate_left(n % l);
                    if n % 2 == 0 {
                        rest.reverse();
                    }
                    let start = vec![pts[i], pts[j]];
                    let whole: Vec<P> = start.iter().chain(&rest).copied().collect();
                    f(Bare { frame: cyc(n), batches: vec![whole], plan: plan.clone() });
                    // the shortest first batch that spans the plane, then one by one, then all again
                    let mut first = start.clone();
                    let mut it = rest.iter().copied();
                    for p in it.by_ref() {
                        first.push(p);
                        if !flat(&first.iter().copied().collect()) {
                            break;
                        }
                    }
                    let mut batches = vec![first];
                    batches.extend(it.map(|p| vec![p]));
                    if batches.len() > 1 {
                        let (a, b) = (batches[0].clone(), batches[1..].concat());
                        batches.push(pts.clone());
                        f(Bare { frame: cyc(n / 2), batches, plan: plan.clone() });
                        f(Bare { frame: cyc(n / 3), batches: vec![a, b], plan: plan.clone() });
                    }
                }
            }
        });
    };
    for k in 3..=t.pick(5, 9) {
        sets(&grid(3, 3), k, true, Plan::Base(t.pick(2, 4)), f);
    }
    for k in t.pick(6, 9)..=9 {
        sets(&grid(3, 3), k, false, Plan::Base(2), f);
    }
    for k in 3..=t.pick(4, 6) {
        sets(&grid(4, 4), k, t.deep() && k < 6, Plan::Base(1), f);
    }
    for k in 3..=t.pick(4, 5) {
        sets(&grid(3, 2), k, true, Plan::Deviate { policy: 0, depth: 1 }, f);
    }
    let c: Vec<P> = circle_points(25);
    for k in 4..=t.pick(5, 8) {
        sets(&c, k, false, Plan::Base(2), f);
    }
    for m in 3..=t.pick(6, 9) {
        sets(&grid(m, m), (m * m) as usize, false, Plan::Base(4), f);
    }
}

pub fn bare() -> PlanCheck<Bare> {
    PlanCheck {
        id: "C16",
        bounds: |t| format!("every set of up to {} points of the 3x3 grid from every initial segment, in one call, in two, and one by one with repetitions; larger sets, the 4x4 grid with up to {}, cocircular points and whole lattices from every fifth initial segment; 16 frames; every schedule with one deviation for up to {} points of the 3x2 grid", t.pick(5, 9), t.pick(4, 6), t.pick(4, 5)),
        gen: bare_gen,
        run: bare_run,
        assume: &["the points of the first call are not all on one line"],
    }
}

// ------------------------------------------------------------------ C17 the container

/// A container holding these triangles (indices into `pool`), and one more operation.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Op {
    frame: u8,
    /// the triangles inside, in the order they were included
    inside: Vec<u8>,
    /// included in between and removed again
    passing: Option<u8>,
    include: bool,
    which: u8,
    turn: u8,
}

const CORNERS: [P; 4] = [(0, 0), (3, 0), (2, 2), (0, 3)];
type Tri = [Option<usize>; 3];

/// every triangle on four points and the ghost vertex, first index smallest
fn pool() -> Vec<Tri> {
    let mut v = vec![];
    for a in 0..4 {
        for b in a + 1..4 {
            for c in b + 1..4 {
                v.push([Some(a), Some(b), Some(c)]);
                v.push([Some(a), Some(c), Some(b)]);
            }
            v.push([Some(a), Some(b), None]);
            v.push([Some(b), Some(a), None]);
        }
    }
    v
}

fn sides(t: &Tri) -> [(Option<usize>, Option<usize>); 3] {
    [(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]
}

fn op_check(c: &Op, o: &mut Obs) -> Result<(), String> {
    let f = at(c.frame);
    let pool = pool();
    // new objects every time: equality must not depend on identity
    let vx = |i: Option<usize>| match i {
        Some(i) => f.v(CORNERS[i]),
        None => Rc::new(Vertex::new_ghost()),
    };
    let make = |i: u8, turn: u8| {
        let t = pool[i as usize];
        let k = turn as usize;
        Rc::new(Triangle::new(&vx(t[k % 3]), &vx(t[(k + 1) % 3]), &vx(t[(k + 2) % 3])))
    };
    let mut t = Triangulation::new();
    let mut model: BTreeSet<u8> = BTreeSet::new();
    let add = |t: &mut Triangulation, m: &mut BTreeSet<u8>, i: u8, k: u8| -> Result<(), String> {
        let got = t.include_triangle(&make(i, k));
        ensure!(got == m.insert(i), "including {:?} into {:?} answers {}", pool[i as usize], m, got);
        Ok(())
    };
    let del = |t: &mut Triangulation, m: &mut BTreeSet<u8>, i: u8, k: u8| -> Result<(), String> {
        let got = t.remove_triangle(&make(i, k));
        ensure!(got == m.remove(&i), "removing {:?} from {:?} answers {}", pool[i as usize], m, got);
        Ok(())
    };
    for (n, &i) in c.inside.iter().enumerate() {
        add(&mut t, &mut model, i, n as u8)?;
        if n == c.inside.len() / 2 {
            if let Some(p) = c.passing {
                add(&mut t, &mut model, p, 1)?;
                del(&mut t, &mut model, p, 2)?;
            }
        }
    }
    if c.include {
        add(&mut t, &mut model, c.which, c.turn)?;
    } else {
        del(&mut t, &mut model, c.which, c.turn)?;
    }
    ensure!(t.triangles.len() == model.len(), "{} triangles instead of {:?}", t.triangles.len(), model);
    let mut n = 0;
    let mut verts: BTreeSet<usize> = BTreeSet::new();
    for i in 0..pool.len() as u8 {
        let inside = model.contains(&i);
        for k in 0..3 {
            ensure!(t.triangles.contains(&make(i, k)) == inside, "{:?} contained is not {}", pool[i as usize], inside);
        }
        if inside {
            verts.extend(pool[i as usize].iter().flatten());
            for (a, b) in sides(&pool[i as usize]) {
                n += 1;
                let e = Rc::new(Edge::new(&vx(a), &vx(b)));
                match t.adjacency.get(&e) {
                    Some(x) => ensure!(*x == make(i, 0), "the side {} belongs to {}", e, x),
                    None => return Err(format!("the side {} of {:?} is not found", e, pool[i as usize])),
                }
                ensure!(t.edges().contains(&e), "the side {} is not among the edges", e);
            }
        }
    }
    ensure!(t.adjacency.len() == n, "{} sides instead of {}", t.adjacency.len(), n);
    ensure!(t.edges().len() == n, "{} edges instead of {}", t.edges().len(), n);
    let got = t.vertices();
    ensure!(got.len() == verts.len() && verts.iter().all(|&i| got.contains(&vx(Some(i)))), "vertices {:?}", got);
    ensure!(Triangulation::new().triangles.is_empty() && Triangulation::new().adjacency.is_empty(), "a new container is not empty");
    if model.is_empty() {
        let (p, q) = (f.v(CORNERS[0]), f.v(CORNERS[1]));
        let s = Triangulation::from_initial_segment((&p, &q));
        let m = extract(f, &s)?;
        ensure!(m.solid.is_empty() && m.ghosts == vec![(CORNERS[0], CORNERS[1]), (CORNERS[1], CORNERS[0])], "the initial segment gives {:?}", m);
    }
    o.runs += 1;
    o.trans += c.inside.len() as u64 + 1;
    o.state(&model);
    Ok(())
}

fn op_gen(t: Tier, f: &mut dyn FnMut(Op)) {
    let pool = pool();
    // every set of triangles no two of which share a directed side
    fn sets(pool: &[Tri], from: usize, cur: &mut Vec<u8>, used: &mut Vec<(Option<usize>, Option<usize>)>, f: &mut dyn FnMut(&[u8])) {
        f(cur);
        for i in from..pool.len() {
            let s = sides(&pool[i]);
            if s.iter().any(|e| used.contains(e)) {
                continue;
            }
            cur.push(i as u8);
            used.extend(s);
            sets(pool, i + 1, cur, used, f);
            used.truncate(used.len() - 3);
            cur.pop();
        }
    }
    let mut n = 0usize;
    sets(&pool, 0, &mut vec![], &mut vec![], &mut |cur| {
        let fits = |i: u8| {
            let s = sides(&pool[i as usize]);
            !cur.iter().any(|&j| j != i && sides(&pool[j as usize]).iter().any(|e| s.contains(e)))
        };
        for which in 0..pool.len() as u8 {
            for include in [true, false] {
                if include && !fits(which) {
                    continue;
                }
                n += 1;
                let mut inside = cur.to_vec();
                let l = inside.len().max(1);
                inside.rotate_left(n % l);
                if n % 2 == 0 {
                    inside.reverse();
                }
                // something that fits passes through
                let passing = (0..pool.len() as u8).map(|k| (k as usize + n) as u8 % pool.len() as u8).find(|&k| fits(k) && !cur.contains(&k));
                for turn in 0..3 {
                    f(Op { frame: cyc(n), inside: inside.clone(), passing: None, include, which, turn });
                    if t.deep() || turn == 0 {
                        f(Op { frame: cyc(n / 2), inside: inside.clone(), passing, include, which, turn });
                    }
                }
            }
        }
    });
}

pub fn container() -> FnCheck<Op> {
    FnCheck {
        id: "C17",
        bounds: |_| "every reachable content of a container over all 20 triangles (both directions, ghosts) on four points, and from each every inclusion that fits and every removal, in all three rotations, also after another triangle came and went".to_string(),
        gen: op_gen,
        check: op_check,
        assume: &["no two triangles inside at a time share a directed side"],
    }
}
