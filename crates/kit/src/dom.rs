//! Domains (boundary, holes, segment and vertex constraints): building them
//! through the public API, running the pipeline under a schedule, and judging
//! the mesh against the exact reference.
use crate::engine::{Bad, Obs};
use crate::frame::*;
use crate::geo::*;
use crate::mesh::*;
use crate::run::{self, Fail};
use crate::HashSet;
use nlsn_delaunay::planar::refine_params::RefineParams;
use nlsn_delaunay::planar::triangulator::Triangulator;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vstd::ctl::{self, Schedule};

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Sched {
    pub policy: u32,
    pub dev: Vec<(u32, u32)>,
}
impl Sched {
    pub fn base(policy: u32) -> Sched {
        Sched { policy, dev: vec![] }
    }
    pub fn to(&self) -> Schedule {
        Schedule { policy: self.policy, deviations: self.dev.clone() }
    }
}

/// Which schedules a case is run under.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Plan {
    /// base policies 0..n
    Base(u32),
    /// policy, and every schedule that deviates from it at up to `depth` iteration points
    Deviate { policy: u32, depth: u32 },
    /// exactly this one (replays)
    One(Sched),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Dom {
    pub outer: Vec<P>,
    #[serde(default)]
    pub holes: Vec<Vec<P>>,
    #[serde(default)]
    pub segs: Vec<(P, P)>,
    #[serde(default)]
    pub verts: Vec<P>,
    #[serde(default)]
    pub frame: u8,
    /// order of the insert calls: 0 holes-segments-vertices, 1 vertices-segments-holes,
    /// 2 one element at a time in reverse order of listing
    #[serde(default)]
    pub order: u8,
    pub plan: Plan,
    #[serde(default)]
    pub refine: Option<Refine>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Refine {
    pub quality: f64,
    pub area: Option<f64>,
}

impl Dom {
    pub fn new(outer: Vec<P>) -> Dom {
        Dom { outer, holes: vec![], segs: vec![], verts: vec![], frame: 0, order: 0, plan: Plan::Base(2), refine: None }
    }
    pub fn hole(mut self, h: Vec<P>) -> Dom {
        self.holes.push(h);
        self
    }
    pub fn holes(mut self, h: &[Vec<P>]) -> Dom {
        self.holes.extend(h.iter().cloned());
        self
    }
    pub fn segs(mut self, s: &[(P, P)]) -> Dom {
        self.segs.extend(s.iter().cloned());
        self
    }
    pub fn verts(mut self, s: &[P]) -> Dom {
        self.verts.extend(s.iter().cloned());
        self
    }
    pub fn frame(mut self, f: u8) -> Dom {
        self.frame = f;
        self
    }
    pub fn order(mut self, f: u8) -> Dom {
        self.order = f;
        self
    }
    pub fn plan(mut self, p: Plan) -> Dom {
        self.plan = p;
        self
    }
    pub fn refine(mut self, quality: f64, area: Option<f64>) -> Dom {
        self.refine = Some(Refine { quality, area });
        self
    }
    pub fn fr(&self) -> &'static Frame {
        at(self.frame)
    }

    /// Builds the triangulator; every insertion of these valid domains must be accepted.
    pub fn build(&self) -> Result<Triangulator, String> {
        let f = self.fr();
        // the boundary is written with positive zeros, the rest as the frame says
        let plain = Frame { neg: false, ..*f };
        let mut t = Triangulator::new(&plain.poly(&self.outer));
        let holes = |t: &mut Triangulator, rev: bool| -> Result<(), String> {
            let mut hs = self.holes.clone();
            if rev {
                hs.reverse();
            }
            for h in &hs {
                if t.insert_hole(&f.poly(h)).is_err() {
                    return Err(format!("hole {:?} rejected", h));
                }
            }
            Ok(())
        };
        let segs = |t: &mut Triangulator, one: bool| -> Result<(), String> {
            let mut all: Vec<Vec<(P, P)>> = vec![self.segs.clone()];
            if one {
                all = self.segs.iter().rev().map(|s| vec![*s]).collect();
            }
            for s in all {
                if !s.is_empty() && t.insert_segments(&s.iter().map(|&(a, b)| f.e(a, b)).collect()).is_err() {
                    return Err(format!("segments {:?} rejected", s));
                }
            }
            Ok(())
        };
        let verts = |t: &mut Triangulator, one: bool| -> Result<(), String> {
            let mut all: Vec<Vec<P>> = vec![self.verts.clone()];
            if one {
                all = self.verts.iter().rev().map(|s| vec![*s]).collect();
            }
            for s in all {
                if !s.is_empty() && t.insert_vertices(&s.iter().map(|&a| f.v(a)).collect()).is_err() {
                    return Err(format!("vertices {:?} rejected", s));
                }
            }
            Ok(())
        };
        match self.order {
            0 => {
                holes(&mut t, false)?;
                segs(&mut t, false)?;
                verts(&mut t, false)?;
            }
            1 => {
                verts(&mut t, false)?;
                segs(&mut t, false)?;
                holes(&mut t, false)?;
            }
            _ => {
                segs(&mut t, true)?;
                verts(&mut t, true)?;
                holes(&mut t, true)?;
            }
        }
        Ok(t)
    }

    fn execute(&self, s: &Sched, record: bool) -> (Result<Triangulator, String>, ctl::Trace) {
        ctl::begin(&s.to(), record);
        let r = run::guarded(run::STEP_LIMIT, || {
            let mut t = self.build()?;
            t.triangulate();
            if let Some(p) = self.refine {
                let s = self.fr().scale();
                t.refine(RefineParams { quality_ratio: p.quality, max_area: p.area.map(|a| a * s * s) });
            }
            Ok(t)
        });
        let tr = ctl::end();
        let r = match r {
            Ok(r) => r,
            Err(f) => Err(f.to_string()),
        };
        (r, tr)
    }

    /// Runs the pipeline under every schedule of the plan and hands each final
    /// triangulator to `judge`; the judge returns a fingerprint of the state.
    pub fn explore(
        &self,
        o: &mut Obs,
        judge: &mut dyn FnMut(&Triangulator) -> Result<u64, String>,
    ) -> Result<(), Bad<Dom>> {
        let mut go = |s: &Sched, record: bool, o: &mut Obs| -> Result<Vec<u32>, Bad<Dom>> {
            let mut c = self.clone();
            c.plan = Plan::One(s.clone());
            run::set_current(Some(serde_json::to_string(&c).unwrap()));
            let (r, tr) = self.execute(s, record);
            run::set_current(None);
            o.runs += 1;
            o.trans += tr.points as u64 + 2 + self.holes.len() as u64;
            if tr.diverged {
                o.count("diverged_schedules", 1);
            }
            match r.and_then(|t| judge(&t)) {
                Ok(h) => {
                    o.state(&h);
                    Ok(tr.sizes)
                }
                Err(msg) => Err(Bad { msg, case: Some(c) }),
            }
        };
        crate::sched::each(&self.plan, o, &mut go)
    }
}

/// What the reference says the mesh of a domain must look like.
pub struct Want {
    pub vertices: BTreeSet<P>,
    /// constraint pieces between consecutive expected vertices
    pub pieces: BTreeSet<(P, P)>,
}

fn key(a: P, b: P) -> (P, P) {
    if a < b { (a, b) } else { (b, a) }
}

impl Dom {
    pub fn hole_edges(&self) -> Vec<(P, P)> {
        self.holes.iter().flat_map(|h| ring(h)).collect()
    }
    /// Every vertex the mesh must have. Crossing points of segment constraints
    /// have to be grid points (the families take care of it).
    pub fn want(&self) -> Want {
        let mut vs: BTreeSet<P> = self.outer.iter().copied().collect();
        for h in &self.holes {
            vs.extend(h.iter().copied());
        }
        for &(a, b) in &self.segs {
            vs.insert(a);
            vs.insert(b);
        }
        for i in 0..self.segs.len() {
            for j in 0..i {
                let ((a, b), (c, d)) = (self.segs[i], self.segs[j]);
                if proper_cross(a, b, c, d) {
                    let (x, y) = cross_point(a, b, c, d).unwrap();
                    assert!(x.d == 1 && y.d == 1, "family produced a crossing off the grid");
                    vs.insert((x.n as i64, y.n as i64));
                }
            }
        }
        vs.extend(self.verts.iter().copied());
        let mut pieces = BTreeSet::new();
        let mut lines = ring(&self.outer);
        lines.extend(self.hole_edges());
        lines.extend(self.segs.iter().copied());
        for (a, b) in lines {
            let mut on: Vec<P> = vs.iter().copied().filter(|&p| on_segment(a, b, p)).collect();
            on.sort_by_key(|&p| dist2(a, p));
            for w in on.windows(2) {
                pieces.insert(key(w[0], w[1]));
            }
        }
        Want { vertices: vs, pieces }
    }
}

pub fn ring(p: &[P]) -> Vec<(P, P)> {
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect()
}

pub fn fingerprint<T: std::hash::Hash>(t: &T) -> u64 {
    let mut h = run::Fnv::default();
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

/// Which parts of the oracle a check applies.
#[derive(Clone, Copy, Default)]
pub struct Judge {
    pub covers: bool,
    pub vertices: bool,
    pub pieces: bool,
    pub delaunay: bool,
    pub ghosts: bool,
}
pub const ALL: Judge = Judge { covers: true, vertices: true, pieces: true, delaunay: true, ghosts: true };

impl Judge {
    pub fn mesh(&self, d: &Dom, w: &Want, m: &Mesh) -> Result<(), String> {
        m.ccw()?;
        if self.covers {
            m.covers(&d.outer, &d.holes)?;
        }
        if self.vertices {
            let got = m.vertices();
            if let Some(p) = w.vertices.difference(&got).next() {
                return Err(format!("vertex {:?} is missing from the mesh", p));
            }
            if let Some(p) = got.difference(&w.vertices).next() {
                return Err(format!("vertex {:?} is in the mesh but was never given", p));
            }
        }
        if self.pieces {
            let es = m.edges();
            for &(a, b) in &w.pieces {
                if !es.contains(&(a, b)) && !es.contains(&(b, a)) {
                    return Err(format!("constraint piece {:?}-{:?} is not an edge of the mesh", a, b));
                }
            }
        }
        if self.delaunay {
            m.delaunay(&|a, b| w.pieces.contains(&key(a, b)))?;
        }
        if self.ghosts {
            m.ghost_ring()?;
        }
        Ok(())
    }
}

impl Mesh {
    /// Ghost triangles sit exactly on the sides that have no solid triangle
    /// on their other side.
    pub fn ghost_ring(&self) -> Result<(), String> {
        let es = self.edges();
        let g: BTreeSet<(P, P)> = self.ghosts.iter().copied().collect();
        for &(a, b) in &es {
            if es.contains(&(b, a)) == g.contains(&(b, a)) {
                return Err(format!("ghost triangle on {:?}->{:?}: {}", b, a, g.contains(&(b, a))));
            }
        }
        for &(a, b) in &g {
            if !es.contains(&(b, a)) {
                return Err(format!("ghost triangle on {:?}->{:?} has no solid neighbour", a, b));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ refined meshes

pub type F = (f64, f64);

/// A refined mesh in grid coordinates (floats), with the container invariants
/// checked by vertex identity.
pub struct FMesh {
    pub pts: Vec<F>,
    pub tris: Vec<[usize; 3]>,
    pub dir: BTreeMap<(usize, usize), usize>,
    /// how far off rounding may have taken a vertex, in grid units
    pub tol: f64,
    /// largest coordinate, and what separates a determinant from zero
    pub far: f64,
}

fn fcross(a: F, b: F, c: F) -> f64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn fdist(a: F, b: F) -> f64 {
    ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()
}

pub fn fextract(fr: &Frame, t: &nlsn_delaunay::planar::triangulation::Triangulation) -> Result<FMesh, String> {
    use std::collections::HashMap as M;
    let mut ids: M<(u64, u64), usize> = M::new();
    let mut pts: Vec<F> = vec![];
    const G: usize = usize::MAX;
    let mut dir: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut tris = vec![];
    let mut all = 0usize;
    let mut id = |x: &nlsn_delaunay::elements::vertex::Vertex, pts: &mut Vec<F>| -> usize {
        if x.is_ghost {
            return G;
        }
        *ids.entry(((x.x + 0.0).to_bits(), (x.y + 0.0).to_bits())).or_insert_with(|| {
            pts.push(fr.back(x.x, x.y));
            pts.len() - 1
        })
    };
    for tr in t.triangles.iter() {
        let r = [id(&tr.v1, &mut pts), id(&tr.v2, &mut pts), id(&tr.v3, &mut pts)];
        for i in 0..3 {
            if dir.insert((r[i], r[(i + 1) % 3]), all).is_some() {
                return Err("a directed edge belongs to two triangles".into());
            }
        }
        all += 1;
        if !r.contains(&G) {
            tris.push(r);
        }
    }
    if t.adjacency.len() != dir.len() {
        return Err(format!("adjacency has {} entries for {} triangle sides", t.adjacency.len(), dir.len()));
    }
    for (a, b) in dir.keys() {
        if !dir.contains_key(&(*b, *a)) {
            return Err(format!(
                "edge {:?}-{:?} has no neighbour on its other side",
                pts.get(*a), pts.get(*b)
            ));
        }
    }
    let far = t.triangles.iter().flat_map(|t| [t.v1.size(), t.v2.size(), t.v3.size()]).fold(1.0, f64::max) / fr.scale();
    Ok(FMesh { pts, tris, dir, tol: 1e-9 + 1e3 * fr.grain(), far })
}

impl FMesh {
    pub fn area(&self, t: &[usize; 3]) -> f64 {
        fcross(self.pts[t[0]], self.pts[t[1]], self.pts[t[2]]) / 2.0
    }
    pub fn circle(&self, t: &[usize; 3]) -> (F, f64) {
        let (a, b, c) = (self.pts[t[0]], self.pts[t[1]], self.pts[t[2]]);
        let (bx, by, cx, cy) = (b.0 - a.0, b.1 - a.1, c.0 - a.0, c.1 - a.1);
        let d = 2.0 * (bx * cy - by * cx);
        let (b2, c2) = (bx * bx + by * by, cx * cx + cy * cy);
        let u = ((cy * b2 - by * c2) / d, (bx * c2 - cx * b2) / d);
        ((a.0 + u.0, a.1 + u.1), (u.0 * u.0 + u.1 * u.1).sqrt())
    }
    /// No triangle has the vertex across one of its unconstrained sides inside
    /// its circumcircle (up to rounding).
    pub fn delaunay(&self, lines: &[(P, P)]) -> Result<(), String> {
        let on = |a: F, b: F| {
            lines.iter().any(|&(p, q)| {
                let (p, q) = ((p.0 as f64, p.1 as f64), (q.0 as f64, q.1 as f64));
                let l = fdist(p, q);
                let near = |x: F| {
                    let u = ((x.0 - p.0) * (q.0 - p.0) + (x.1 - p.1) * (q.1 - p.1)) / (l * l);
                    (fcross(p, q, x) / l).abs() < self.tol && u > -self.tol && u < 1.0 + self.tol
                };
                near(a) && near(b)
            })
        };
        let mut opp: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for t in &self.tris {
            for i in 0..3 {
                opp.insert((t[i], t[(i + 1) % 3]), t[(i + 2) % 3]);
            }
        }
        for (&(a, b), &c) in &opp {
            let Some(&d) = opp.get(&(b, a)) else { continue };
            if on(self.pts[a], self.pts[b]) {
                continue;
            }
            let t = [a, b, c];
            let (o, r) = self.circle(&t);
            // the code calls what the rounding of the coordinates may cause zero
            let l = [b, c, d].iter().map(|&i| fdist(self.pts[a], self.pts[i])).fold(0.0, f64::max);
            let tol = 1e-11 + 2e-14 * self.far * l.powi(3);
            if (r * r - fdist(o, self.pts[d]).powi(2)) * self.area(&t) > tol {
                return Err(format!(
                    "{:?} lies inside the circumcircle of {:?}",
                    self.pts[d], [self.pts[a], self.pts[b], self.pts[c]]
                ));
            }
        }
        Ok(())
    }
    /// circumradius to shortest side
    pub fn ratio(&self, t: &[usize; 3]) -> f64 {
        let p = [self.pts[t[0]], self.pts[t[1]], self.pts[t[2]]];
        let l = [fdist(p[0], p[1]), fdist(p[1], p[2]), fdist(p[2], p[0])];
        l[0] * l[1] * l[2] / (4.0 * self.area(t)) / l[0].min(l[1]).min(l[2])
    }
    pub fn total(&self) -> f64 {
        self.tris.iter().map(|t| self.area(t)).sum()
    }
    pub fn find(&self, p: P) -> Option<usize> {
        self.pts.iter().position(|q| fdist(*q, (p.0 as f64, p.1 as f64)) < self.tol)
    }
    /// The constraint a-b is covered by mesh edges: walking the mesh vertices on
    /// it from a to b, consecutive ones are joined by an edge.
    pub fn covers_segment(&self, a: P, b: P) -> Result<(), String> {
        let (fa, fb) = ((a.0 as f64, a.1 as f64), (b.0 as f64, b.1 as f64));
        let len = fdist(fa, fb);
        let used: BTreeSet<usize> = self.tris.iter().flatten().copied().collect();
        let mut on: Vec<(f64, usize)> = vec![];
        for &i in &used {
            let p = self.pts[i];
            let off = (fcross(fa, fb, p) / len).abs();
            let u = ((p.0 - fa.0) * (fb.0 - fa.0) + (p.1 - fa.1) * (fb.1 - fa.1)) / (len * len);
            if off < self.tol && u > -self.tol && u < 1.0 + self.tol {
                on.push((u, i));
            }
        }
        on.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
        if on.is_empty() || on[0].0 > self.tol || on[on.len() - 1].0 < 1.0 - self.tol {
            return Err(format!("an end of {:?}-{:?} is missing", a, b));
        }
        for w in on.windows(2) {
            let (x, y) = (w[0].1, w[1].1);
            if !self.dir.contains_key(&(x, y)) && !self.dir.contains_key(&(y, x)) {
                return Err(format!("{:?}-{:?} is not covered between {:?} and {:?}", a, b, self.pts[x], self.pts[y]));
            }
        }
        Ok(())
    }
}

pub fn set<T: std::hash::Hash + Eq>(it: impl IntoIterator<Item = T>) -> HashSet<T> {
    it.into_iter().collect()
}

pub fn fail(f: Fail) -> String {
    f.to_string()
}
