//! Histories of calls on the triangulator against a reference model of its
//! domain: what is accepted, what is refused with which conflicts, what the
//! domain is afterwards, and what the meshes are.
use kit::ensure;
use crate::poly::params;
use kit::refined::*;
use kit::dom::*;
use kit::engine::*;
use kit::fam::*;
use kit::frame::*;
use kit::geo::*;
use kit::mesh::*;
use kit::model::*;
use kit::sched::*;
use kit::HashSet;
use nlsn_delaunay::planar::refine_params::RefineParams;
use nlsn_delaunay::planar::triangulator::Triangulator;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    V(Vec<P>),
    S(Vec<(P, P)>),
    H(Vec<P>),
    /// triangulate
    T,
    /// refine
    R(f64, Option<f64>),
    /// the insertion with coordinates that differ by rounding
    N(Box<Op>),
    /// the insertion with both, in one call
    B(Box<Op>),
}
impl Op {
    /// What is asked for: equality tolerates rounding.
    fn meant(&self) -> &Op {
        match self {
            N(o) | B(o) => o,
            o => o,
        }
    }
}
use Op::*;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hist {
    frame: u8,
    outer: Vec<P>,
    ops: Vec<Op>,
    plan: Plan,
}
impl Planned for Hist {
    fn plan(&self) -> &Plan {
        &self.plan
    }
    fn set_plan(&mut self, p: Plan) {
        self.plan = p;
    }
}

fn same(f: &Frame, outer: &[P], want: &Model, t: &Triangulator, step: usize, op: &Op) -> Result<(), String> {
    let got = observe(f, t)?;
    ensure!(got.holes == want.holes, "step {} {:?}: holes {:?} instead of {:?}", step, op, got.holes, want.holes);
    ensure!(got.verts == want.verts, "step {} {:?}: vertices {:?} instead of {:?}", step, op, got.verts, want.verts);
    ensure!(got.segs == want.segs, "step {} {:?}: segments {:?} instead of {:?}", step, op, got.segs, want.segs);
    let b: Vec<P> = t.boundary.vertices.iter().map(|v| point(f, v)).collect::<Result<_, String>>()?;
    ensure!(b == outer, "step {} {:?}: the boundary became {:?}", step, op, b);
    Ok(())
}

fn edge(
    a: &std::rc::Rc<nlsn_delaunay::elements::vertex::Vertex>,
    b: &std::rc::Rc<nlsn_delaunay::elements::vertex::Vertex>,
) -> std::rc::Rc<nlsn_delaunay::elements::edge::Edge> {
    std::rc::Rc::new(nlsn_delaunay::elements::edge::Edge::new(a, b))
}

fn off(f: &Frame, p: P) -> std::rc::Rc<nlsn_delaunay::elements::vertex::Vertex> {
    let (x, y) = f.xy(p);
    std::rc::Rc::new(nlsn_delaunay::elements::vertex::Vertex::new(x.next_up(), y.next_down()))
}

fn mesh_print(t: &Triangulator) -> (usize, u64) {
    let tr = t.triangulation.borrow();
    let bits = |v: &nlsn_delaunay::elements::vertex::Vertex| {
        if v.is_ghost { (u64::MAX, u64::MAX) } else { ((v.x + 0.0).to_bits(), (v.y + 0.0).to_bits()) }
    };
    let mut l: Vec<_> = tr.triangles.iter().map(|t| [bits(&t.v1), bits(&t.v2), bits(&t.v3)]).collect();
    l.sort();
    let mut a: Vec<_> = tr.adjacency.keys().map(|e| [bits(&e.v1), bits(&e.v2)]).collect();
    a.sort();
    (l.len(), fingerprint(&(l, a)))
}

#[derive(PartialEq, Clone, Copy)]
enum Mesh0 {
    Empty,
    Plain,
    Refined,
    /// domain changed since
    Stale,
}

pub fn hist_run(c: &Hist) -> Result<Ran, String> {
    let f = at(c.frame);
    let plain = Frame { neg: false, ..*f };
    let mut t = Triangulator::new(&plain.poly(&c.outer));
    let mut m = Model::default();
    let mut mesh = Mesh0::Empty;
    let mut log = vec![];
    for (i, op) in c.ops.iter().enumerate() {
        let print = mesh_print(&t);
        let exact = !matches!(op, N(_));
        let rough = matches!(op, N(_) | B(_));
        let at = |p: P| if exact { f.v(p) } else { off(f, p) };
        let op = op.meant();
        let answer = match op {
            V(vs) => match t.insert_vertices(&vs.iter().map(|&p| at(p)).chain(vs.iter().filter(|_| rough).map(|&p| off(f, p))).collect()) {
                Ok(_) => Answer::Ok,
                Err(e) => Answer::Vertices(e.iter().map(|v| point(f, v)).collect::<Result<_, String>>()?),
            },
            S(ss) => match t.insert_segments(
                &ss.iter()
                    .map(|&(a, b)| edge(&at(a), &at(b)))
                    .chain(ss.iter().filter(|_| rough).map(|&(a, b)| edge(&off(f, a), &off(f, b))))
                    .collect(),
            ) {
                Ok(_) => Answer::Ok,
                Err(e) => Answer::Segments(
                    e.iter().map(|e| Ok((point(f, &e.v1)?, point(f, &e.v2)?))).collect::<Result<_, String>>()?,
                ),
            },
            H(h) => match t.insert_hole(&f.poly(h)) {
                Ok(_) => Answer::Ok,
                Err(e) => Answer::Vertices(e.iter().map(|v| point(f, v)).collect::<Result<_, String>>()?),
            },
            T => {
                t.triangulate();
                Answer::Ok
            }
            R(q, a) => {
                let s = f.scale();
                t.refine(RefineParams { quality_ratio: *q, max_area: a.map(|a| a * s * s) });
                Answer::Ok
            }
            N(_) | B(_) => unreachable!(),
        };
        let before = m.clone();
        let want = match op {
            V(vs) => m.insert_vertices(&c.outer, vs),
            S(ss) => m.insert_segments(&c.outer, ss),
            H(h) => m.insert_hole(&c.outer, h),
            _ => Answer::Ok,
        };
        ensure!(answer == want, "step {} {:?} answers {:?} instead of {:?}", i, op, answer, want);
        same(f, &c.outer, &m, &t, i, op)?;
        match op {
            T => {
                mesh = Mesh0::Plain;
                let d = m.dom(c.frame, &c.outer);
                let x = extract(f, &t.triangulation.borrow())?;
                ALL.mesh(&d, &d.want(), &x).map_err(|e| format!("step {}: {}", i, e))?;
            }
            R(q, a) => match mesh {
                Mesh0::Empty => ensure!(mesh_print(&t).0 == 0, "step {}: refining nothing made triangles", i),
                Mesh0::Stale => {}
                _ => {
                    mesh = Mesh0::Refined;
                    let d = m.dom(c.frame, &c.outer).refine(*q, *a);
                    let x = fextract(f, &t.triangulation.borrow())?;
                    keeps(&d, &x).map_err(|e| format!("step {}: {}", i, e))?;
                    kit::refined::delaunay(&d, &x).map_err(|e| format!("step {}: {}", i, e))?;
                    if wide(&d) {
                        bounded(&d, &x).map_err(|e| format!("step {}: {}", i, e))?;
                    }
                }
            },
            _ => {
                ensure!(mesh_print(&t) == print, "step {} {:?} changed the mesh", i, op);
                if before != m && mesh != Mesh0::Empty {
                    mesh = Mesh0::Stale;
                }
            }
        }
        log.push((want, m.clone()));
    }
    Ok(Ran { ops: c.ops.len() as u64, state: fingerprint(&(c.outer.clone(), log)) })
}

// ------------------------------------------------------------------ families

type Emit<'a> = &'a mut dyn FnMut(Hist);

/// Emits the history when the crossings of its segments lie on the lattice, in
/// a frame where its other crossings stay within the library's tolerance.
fn emit(outer: &[P], ops: Vec<Op>, frame: u8, plan: Plan, f: Emit) {
    let mut segs: Vec<(P, P)> = vec![];
    let mut rings = ring(outer);
    let mut stale = false;
    let mut any = false;
    for o in &ops {
        match o.meant() {
            S(s) => segs.extend(s.iter().copied()),
            H(h) => rings.extend(ring(h)),
            _ => {}
        }
        // refining is only specified on the mesh of the current domain
        match o {
            T => {
                any = true;
                stale = false
            }
            R(..) => {
                if stale {
                    return;
                }
            }
            _ => stale = any,
        }
    }
    for i in 0..segs.len() {
        for j in 0..i {
            let ((a, b), (c, d)) = (segs[i], segs[j]);
            if proper_cross(a, b, c, d) {
                let (x, y) = cross_point(a, b, c, d).unwrap();
                if x.d != 1 || y.d != 1 {
                    return;
                }
            }
        }
    }
    // the crossings of segments and sides of holes come close to the least tolerance
    let apart = !segs.iter().any(|&(a, b)| {
        rings.iter().any(|&(c, d)| {
            proper_cross(a, b, c, d) && {
                let (x, y) = cross_point(a, b, c, d).unwrap();
                x.d != 1 || y.d != 1
            }
        })
    });
    let frame = if frame == 15 && !apart { 11 } else { frame };
    f(Hist { frame, outer: outer.to_vec(), ops, plan });
}

fn ell(n: i64) -> Vec<P> {
    // an L: the corner region [n/2, n]^2 is missing
    vec![(0, 0), (n, 0), (n, n / 2), (n / 2, n / 2), (n / 2, n), (0, n)]
}
fn outers() -> Vec<Vec<P>> {
    vec![square(8), ell(8), vec![(0, 0), (8, 0), (4, 8)], vec![(4, 0), (8, 4), (4, 8), (0, 4)]]
}
fn even(lo: i64, hi: i64) -> Vec<P> {
    grid(hi + 1, hi + 1).into_iter().filter(|p| p.0 >= lo && p.1 >= lo && p.0 % 2 == 0 && p.1 % 2 == 0).collect()
}

/// small domains the calls start from
fn setups() -> Vec<Vec<Op>> {
    let h1 = vec![(2, 2), (4, 2), (4, 4), (2, 4)];
    let h2 = vec![(5, 1), (7, 1), (6, 3)];
    let s1 = vec![((2, 1), (6, 1))];
    let s2 = vec![((2, 6), (6, 2)), ((2, 2), (6, 6))];
    let s3 = vec![((1, 1), (3, 3)), ((3, 3), (3, 1))];
    let v = |l: &[P]| V(l.to_vec());
    vec![
        vec![],
        vec![H(h1.clone())],
        vec![H(h2.clone())],
        vec![S(s1.clone())],
        vec![S(s2.clone())],
        vec![S(s3)],
        vec![v(&[(3, 3), (4, 1)])],
        vec![H(h1.clone()), S(s1.clone())],
        vec![S(s1), H(vec![(2, 2), (4, 2), (3, 4)]), v(&[(1, 1), (1, 3)])],
        vec![H(h2), v(&[(2, 2), (4, 4)]), S(s2)],
        vec![H(vec![(1, 1), (2, 1), (2, 2), (1, 2)]), H(h1.iter().map(|p| (p.0 + 1, p.1 + 1)).collect())],
    ]
}

fn after(s: &[Op], ops: &[Op]) -> Vec<Op> {
    s.iter().chain(ops).cloned().collect()
}

/// The same vertices and segments again, a rounding apart, where they meet
/// each other in their ends only. Frames of small coordinates: farther from
/// the origin a rounding is more than what equality tolerates.
fn rounding(t: Tier, f: Emit) {
    let g = even(2, 6);
    let n = |o: &Op| N(Box::new(o.clone()));
    let b = |o: &Op| B(Box::new(o.clone()));
    let r = R(2.0, None);
    let mut k = 0usize;
    let setups = [vec![], vec![H(vec![(3, 3), (5, 3), (5, 5), (3, 5)])], vec![S(vec![((1, 1), (7, 1))])]];
    for o in outers() {
        for s in &setups {
            if s.iter().any(|x| matches!(x, H(h) if h.iter().any(|&p| in_poly(&o, p) <= 0)) || matches!(x, S(l) if l.iter().any(|e| in_poly(&o, e.0) <= 0 || in_poly(&o, e.1) <= 0))) {
                continue;
            }
            let free = |p: P| in_poly(&o, p) > 0 && !s.iter().any(|x| matches!(x, H(h) if in_poly(h, p) >= 0));
            let g: Vec<P> = g.iter().copied().filter(|&p| free(p)).collect();
            subsets(g.len(), 2, &mut |ix| {
                let (p, q) = (g[ix[0]], g[ix[1]]);
                let (v, w) = (V(vec![p, q]), V(vec![q]));
                k += 1;
                for ops in [vec![b(&v), T, r.clone()], vec![v.clone(), n(&v), T, r.clone()], vec![n(&w), b(&v), w, T, r.clone()]] {
                    emit(&o, after(s, &ops), (k % 6) as u8, Plan::Base(3), f);
                }
                // as ends of a segment
                let clear = segment_free(&o, s, p, q);
                if !clear {
                    return;
                }
                let e = S(vec![(p, q)]);
                for ops in [
                    vec![b(&e), T, r.clone()],
                    vec![e.clone(), n(&e), T, r.clone()],
                    vec![n(&v), e.clone(), T, r.clone()],
                    vec![e.clone(), n(&v), T, r.clone()],
                    vec![b(&v), b(&e), T, r.clone()],
                    vec![n(&e), b(&v), T, r.clone()],
                ] {
                    emit(&o, after(s, &ops), (k % 6) as u8, Plan::Base(3), f);
                }
                // another from the same end
                for (i, &z) in g.iter().enumerate() {
                    if i % t.pick(2, 1) != 0 || z == p || z == q || cross(p, q, z) == 0 || !segment_free(&o, s, q, z) {
                        continue;
                    }
                    let e2 = S(vec![(q, z)]);
                    let both = S(vec![(p, q), (q, z)]);
                    for ops in [
                        vec![e.clone(), n(&e2), T, r.clone()],
                        vec![b(&both), T, r.clone()],
                        vec![e.clone(), n(&both), n(&V(vec![z])), T],
                        vec![n(&V(vec![p, q, z])), e.clone(), b(&e2), V(vec![q]), T],
                    ] {
                        emit(&o, after(s, &ops), ((k + i) % 6) as u8, Plan::Base(2), f);
                    }
                    if (i + k) % t.pick(20, 3) == 0 {
                        emit(&o, after(s, &[n(&w_all(p, q, z)), both.clone(), b(&both), T]), 0, Plan::Deviate { policy: 0, depth: 1 }, f);
                    }
                }
            });
        }
    }
}
fn w_all(p: P, q: P, z: P) -> Op {
    V(vec![p, q, z])
}
/// strictly inside, away from the holes and the segments there are
fn segment_free(o: &[P], s: &[Op], p: P, q: P) -> bool {
    let apart = |(a, b): (P, P)| !(seg_touch(a, b, p, q) || proper_cross(a, b, p, q));
    ring(o).into_iter().all(apart)
        && s.iter().all(|x| match x {
            H(h) => ring(h).into_iter().all(apart),
            S(l) => l.iter().copied().all(apart),
            _ => true,
        })
}

pub fn vertices_gen(t: Tier, f: Emit) {
    rounding(t, f);
    let all = grid(9, 9);
    let mut n = 0usize;
    for o in outers() {
        for s in setups() {
            emit(&o, after(&s, &[V(vec![])]), 0, Plan::Base(1), f);
            for i in 0..all.len() {
                for fr in [0u8, 1, 6, 8] {
                    emit(&o, after(&s, &[V(vec![all[i]])]), fr, Plan::Base(2), f);
                }
                for j in 0..i {
                    n += 1;
                    if n % t.pick(3, 1) == 0 {
                        emit(&o, after(&s, &[V(vec![all[i], all[j]])]), cyc((n) as usize), Plan::Base(2), f);
                        emit(&o, after(&s, &[V(vec![all[i]]), V(vec![all[j]]), V(vec![all[i]])]), cyc((n / 3) as usize), Plan::Base(1), f);
                    }
                }
            }
            // out of the plane
            for p in [(-1, 4), (9, 4), (4, -1), (4, 9), (-3, -3), (20, 4)] {
                emit(&o, after(&s, &[V(vec![(4, 1), p])]), 0, Plan::Base(2), f);
            }
            // whole lattices in one call, and in every schedule with one deviation
            let inside: Vec<P> = all.iter().copied().filter(|&p| in_poly(&o, p) > 0).collect();
            for fr in 0..10u8 {
                emit(&o, after(&s, &[V(all.clone())]), fr, Plan::Base(2), f);
                emit(&o, after(&s, &[V(inside.clone())]), fr, Plan::Base(4), f);
                let free: Vec<P> = inside
                    .iter()
                    .copied()
                    .filter(|&p| !s.iter().any(|x| matches!(x, H(h) if in_poly(h, p) >= 0)))
                    .collect();
                emit(&o, after(&s, &[V(free)]), fr, Plan::Base(4), f);
            }
        }
    }
    // every set of three vertices around a segment and a hole
    let s = setups();
    let g = even(2, 6);
    subsets(g.len(), 3, &mut |ix| {
        let v: Vec<P> = ix.iter().map(|&i| g[i]).collect();
        for k in [3usize, 4, 5, 8] {
            emit(&square(8), after(&s[k], &[V(v.clone())]), 0, Plan::Deviate { policy: 0, depth: t.pick(1, 2) }, f);
        }
    });
}

pub fn segments_gen(t: Tier, f: Emit) {
    rounding(t, f);
    let mut n = 0usize;
    let ends = even(0, 8);
    for o in outers() {
        let ss = segments(&ends);
        for s in setups() {
            emit(&o, after(&s, &[S(vec![])]), 0, Plan::Base(1), f);
            // segments of no length
            for (i, &p) in grid(9, 9).iter().enumerate() {
                emit(&o, after(&s, &[S(vec![(p, p)]), S(vec![((1, 1), (3, 1)), (p, p)])]), cyc((i) as usize), Plan::Base(1), f);
            }
            for (i, &(a, b)) in ss.iter().enumerate() {
                emit(&o, after(&s, &[S(vec![(a, b)])]), cyc((i) as usize), Plan::Base(2), f);
                emit(&o, after(&s, &[S(vec![(b, a)])]), cyc((i / 2) as usize), Plan::Base(1), f);
                for j in 0..i {
                    n += 1;
                    if n % t.pick(29, 1) != 0 {
                        continue;
                    }
                    let (c, d) = ss[j];
                    emit(&o, after(&s, &[S(vec![(a, b), (d, c)])]), cyc((n / 7) as usize), Plan::Base(2), f);
                    emit(&o, after(&s, &[S(vec![(a, b)]), S(vec![(c, d)])]), cyc((n / 3) as usize), Plan::Base(1), f);
                }
            }
        }
    }
    // odd ends against vertices everywhere
    let inside: Vec<P> = inner(7, 7);
    for (i, (a, b)) in segments(&inside).into_iter().enumerate() {
        emit(&square(8), vec![V(inside.clone()), S(vec![(a, b)])], cyc((i) as usize), Plan::Base(2), f);
        emit(&square(8), vec![S(vec![(a, b)]), V(inside.clone())], cyc((i) as usize), Plan::Base(2), f);
        // the same segment both ways, then vertices on it
        emit(&square(8), vec![S(vec![(a, b), (b, a)]), V(inside.clone())], cyc((i) as usize), Plan::Base(2), f);
        emit(&square(8), vec![S(vec![(a, b)]), S(vec![(b, a)]), V(vec![(4, 4), (3, 3), (4, 2)]), T], cyc((i / 2) as usize), Plan::Base(2), f);
        if i % t.pick(7, 1) == 0 {
            let half: Vec<P> = inside.iter().copied().filter(|p| (p.0 + p.1) % 2 == 0).collect();
            emit(&square(8), vec![V(half), S(vec![(a, b)]), S(vec![(b, a)])], 0, Plan::Base(3), f);
        }
    }
    // three segments at once over vertices
    let g = even(2, 6);
    let ss = segments(&g);
    let mut n = 0usize;
    subsets(ss.len(), 3, &mut |ix| {
        n += 1;
        if n % t.pick(5, 1) == 0 {
            let l: Vec<(P, P)> = ix.iter().map(|&i| ss[i]).collect();
            emit(&square(8), vec![V(vec![(4, 4), (4, 2), (3, 3)]), S(l.clone())], cyc((n) as usize), Plan::Base(2), f);
            emit(&square(8), vec![S(l[..2].to_vec()), V(vec![(4, 4), (3, 5)]), S(l[2..].to_vec())], cyc((n / 2) as usize), Plan::Base(2), f);
            if n % t.pick(100, 10) == 0 {
                emit(&square(8), vec![V(vec![(4, 4), (4, 2)]), S(l)], 0, Plan::Deviate { policy: 0, depth: 1 }, f);
            }
        }
    });
}

pub fn holes_gen(t: Tier, f: Emit) {
    let polys: Vec<Vec<P>> = (3..=t.pick(4, 5)).flat_map(|k| simple_polygons(&grid(3, 3), k, true)).collect();
    let mut n = 0usize;
    let inside = inner(7, 7);
    for o in outers() {
        for s in setups() {
            for sc in [1, 2] {
                for p in &polys {
                    for dx in -1..=(8 / sc) {
                        for dy in -1..=(8 / sc) {
                            n += 1;
                            if n % t.pick(4, 1) != 0 {
                                continue;
                            }
                            let h: Vec<P> = p.iter().map(|q| ((q.0 + dx) * sc, (q.1 + dy) * sc)).collect();
                            let x = if n % 8 == 0 { after(&s, &[V(vec![(4, 1), (2, 1), (2, 3)])]) } else { s.clone() };
                            emit(&o, after(&x, &[H(h)]), cyc((n / 4) as usize), Plan::Base(1), f);
                        }
                    }
                }
            }
        }
    }
    // every pair of holes, one after the other and again
    let small: Vec<Vec<P>> = simple_polygons(&grid(3, 3), 3, false);
    for a in small.iter().step_by(t.pick(3, 1)) {
        for b in small.iter().step_by(t.pick(5, 1)) {
            for (dx, dy) in [(0, 0), (1, 0), (2, 1), (2, 0), (-1, 2), (3, 3)] {
                let a: Vec<P> = a.iter().map(|p| (p.0 + 3, p.1 + 3)).collect();
                let b: Vec<P> = b.iter().map(|p| (p.0 + 3 + dx, p.1 + 3 + dy)).collect();
                emit(&square(9), vec![V(inner(8, 8)), H(a.clone()), H(b.clone()), H(a)], cyc(((dx + 1)) as usize), Plan::Base(1), f);
            }
        }
    }
    // holes over vertices everywhere, holes around holes
    for p in &polys {
        for sc in [1, 2, 3] {
            let h: Vec<P> = p.iter().map(|q| (q.0 * sc + 1, q.1 * sc + 1)).collect();
            emit(&square(8), vec![V(inside.clone()), H(h.clone()), V(vec![(1, 1)])], 1, Plan::Base(2), f);
            let core = vec![(3, 3), (4, 3), (4, 4)];
            emit(&square(8), vec![H(core.clone()), H(h.clone())], 0, Plan::Base(2), f);
            emit(&square(8), vec![H(h), H(core)], 6, Plan::Base(2), f);
        }
    }
    let mut k = 0usize;
    for p in &polys {
        k += 1;
        if k % t.pick(20, 2) == 0 {
            let h: Vec<P> = p.iter().map(|q| (q.0 * 2 + 1, q.1 * 2 + 1)).collect();
            let s = vec![((1, 7), (7, 7)), ((6, 1), (6, 6)), ((3, 7), (3, 6))];
            emit(&square(8), vec![S(s), V(vec![(4, 4), (3, 4)]), H(h)], 0, Plan::Deviate { policy: 0, depth: 1 }, f);
        }
    }
}

pub fn history_gen(t: Tier, f: Emit) {
    let a: Vec<Op> = vec![
        V(vec![(3, 4), (5, 6)]),
        S(vec![((2, 6), (6, 6))]),
        S(vec![((4, 5), (4, 7)), ((2, 5), (2, 7))]),
        H(vec![(3, 1), (5, 1), (5, 3), (3, 3)]),
        H(vec![(4, 3), (6, 5), (3, 5)]),
        V(vec![(4, 6), (4, 2)]),
        T,
        R(1.5, None),
        R(2.0, Some(6.0)),
    ];
    // every sequence up to the depth that ends in a mesh or an insertion
    let depth = t.pick(4, 6);
    let mut ix: Vec<usize> = vec![];
    fn go(a: &[Op], depth: usize, ix: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if !ix.is_empty() {
            f(ix);
        }
        if ix.len() == depth {
            return;
        }
        for i in 0..a.len() {
            ix.push(i);
            go(a, depth, ix, f);
            ix.pop();
        }
    }
    let mut n = 0usize;
    go(&a, depth, &mut ix, &mut |ix| {
        let mut ops: Vec<Op> = ix.iter().map(|&i| a[i].clone()).collect();
        // the prefixes are explored on their own: only end in a mesh
        if !ops.contains(&T) {
            ops.push(T);
        }
        n += 1;
        emit(&square(8), ops.clone(), [0, 1, 4, 6, 17, 18, 19, 20][n % 8], Plan::Base(1), f);
        if ix.len() <= 3 {
            emit(&[(0, 0), (8, 0), (8, 4), (7, 8), (0, 8)], ops.clone(), 0, Plan::Base(3), f);
            emit(&[(0, 0), (4, 0), (8, 0), (8, 8), (4, 9), (0, 8)], ops.clone(), 2, Plan::Base(2), f);
        }
        if ix.len() <= t.pick(1, 2) {
            emit(&square(8), ops, 0, Plan::Deviate { policy: 0, depth: 1 }, f);
        }
    });
    // refining closer and closer around constraints that run close to each other
    let n = t.pick(9, 12);
    for gap in 1..=t.pick(2, 3) {
        for x in 1..n - 1 {
            for l in 1..=(n - 1 - x).min(t.pick(2, 4)) {
                let s = S(vec![((1, 4), (n - 1, 4)), ((x, 4 + gap), (x + l, 4 + gap))]);
                let frame = [0, 1, 2, 3, 4, 17, 20][x as usize % 7];
                emit(&square(n), vec![s.clone(), T, R(2.0, None), R(1.42, None), R(1.42, Some(2.0))], frame, Plan::Base(2), f);
                emit(&square(n), vec![V(vec![(x, 5), (1, 1)]), s, T, R(5.0, Some(9.0)), R(3.0, Some(3.0)), R(1.5, Some(1.0))], 0, Plan::Base(1), f);
            }
        }
    }
    // triangulating again and refining again, on more shapes
    for k in 3..=t.pick(5, 7) {
        for p in simple_polygons(&grid(3, 3), k, true) {
            let o = scale(&p, 4);
            for (q, ar) in [(1.5, None), (2.0, Some(9.0))] {
                let r = R(q, ar);
                emit(&o, vec![T, r.clone(), r.clone(), T, T, r.clone()], 0, Plan::Base(2), f);
                emit(&o, vec![r.clone(), T, R(3.0, None), r, T], 3, Plan::Base(1), f);
            }
        }
    }
}

pub fn checks() -> Vec<PlanCheck<Hist>> {
    const A: &[&str] = &["crossings between segment constraints lie on the lattice"];
    vec![
        PlanCheck {
            id: "C11",
            bounds: |t| format!("4 boundaries x 11 domains (holes, segments, vertices, combined) x every single vertex of a 9x9 lattice around them in 4 frames, {} pair of them in one call and in two, whole lattices in 25 frames; every triple of a 3x3 lattice with segments under every schedule with <= {} deviations; vertices and segments repeated a rounding apart", t.pick("every third", "every"), t.pick(1, 2)),
            gen: vertices_gen,
            run: hist_run,
            assume: A,
        },
        PlanCheck {
            id: "C12",
            bounds: |t| format!("4 boundaries x 11 domains x every segment of a 5x5 lattice in both directions, {} pair in one call and in two; every segment of a 7x7 lattice over vertices everywhere; {} triples of segments of a 3x3 lattice with vertices, some under every schedule with one deviation; vertices and segments repeated a rounding apart", t.pick("every 29th", "every"), t.pick("every fifth", "all")),
            gen: segments_gen,
            run: hist_run,
            assume: A,
        },
        PlanCheck {
            id: "C13",
            bounds: |t| format!("4 boundaries x 11 domains x polygons of the 3x3 lattice with k<={} at every shift in two sizes ({}), pairs and repetitions of triangular holes over vertices everywhere, holes around holes; some under every schedule with one deviation", t.pick(4, 5), t.pick("every fourth", "all")),
            gen: holes_gen,
            run: hist_run,
            assume: A,
        },
        PlanCheck {
            id: "C14",
            bounds: |t| format!("every sequence of up to {} calls over an alphabet of 9 (vertices, segments, holes - accepted and conflicting -, triangulate, refine) on a square, up to 3 on two more boundaries, up to {} under every schedule with one deviation; repeated triangulation and refinement of every polygon of the 3x3 lattice with k<={} and around segments close to each other", t.pick(4, 6), t.pick(1, 2), t.pick(5, 7)),
            gen: history_gen,
            run: hist_run,
            assume: &["refining is only judged on the mesh of the current domain or on no mesh", "crossings between segment constraints lie on the lattice"],
        },
    ]
}

#[allow(dead_code)]
type Unused = HashSet<P>;
