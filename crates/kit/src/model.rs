//! Reference model of a triangulator's domain: what insertions are accepted,
//! what is refused and what the domain is afterwards.
use crate::dom::*;
use crate::ensure;
use crate::fam::*;
use crate::frame::*;
use crate::geo::*;
use nlsn_delaunay::planar::triangulator::Triangulator;
use std::collections::BTreeSet;

// ------------------------------------------------------------------ the model

pub fn key(a: P, b: P) -> (P, P) {
    if a < b { (a, b) } else { (b, a) }
}

/// undirected segments cut at every point of `pts` and at every end and crossing of their own
pub fn cut(segs: &BTreeSet<(P, P)>, pts: &BTreeSet<P>) -> BTreeSet<(P, P)> {
    let list: Vec<(P, P)> = segs.iter().copied().collect();
    let mut out = BTreeSet::new();
    for &(a, b) in &list {
        let mut on: BTreeSet<P> = pts.iter().copied().filter(|&p| on_segment(a, b, p)).collect();
        on.insert(a);
        on.insert(b);
        for &(c, d) in &list {
            for p in [c, d] {
                if on_segment(a, b, p) {
                    on.insert(p);
                }
            }
            if proper_cross(a, b, c, d) {
                let (x, y) = cross_point(a, b, c, d).unwrap();
                assert!(x.d == 1 && y.d == 1, "crossing off the lattice");
                on.insert((x.n as i64, y.n as i64));
            }
        }
        let mut on: Vec<P> = on.into_iter().collect();
        on.sort_by_key(|&p| dist2(a, p));
        for w in on.windows(2) {
            out.insert(key(w[0], w[1]));
        }
    }
    out
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Model {
    pub holes: BTreeSet<Vec<P>>,
    pub verts: BTreeSet<P>,
    pub segs: BTreeSet<(P, P)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Answer {
    Ok,
    Vertices(BTreeSet<P>),
    Segments(BTreeSet<(P, P)>),
}

impl Model {
    pub fn insert_vertices(&mut self, outer: &[P], vs: &[P]) -> Answer {
        let bad: BTreeSet<P> = vs
            .iter()
            .copied()
            .filter(|&p| in_poly(outer, p) <= 0 || self.holes.iter().any(|h| in_poly(h, p) >= 0))
            .collect();
        if !bad.is_empty() {
            return Answer::Vertices(bad);
        }
        for &p in vs {
            if !self.segs.iter().any(|&(a, b)| on_segment(a, b, p)) {
                self.verts.insert(p);
            }
        }
        let pts: BTreeSet<P> = vs.iter().copied().collect();
        self.segs = cut(&self.segs, &pts);
        Answer::Ok
    }
    pub fn insert_segments(&mut self, outer: &[P], ss: &[(P, P)]) -> Answer {
        let bad: BTreeSet<(P, P)> = ss
            .iter()
            .copied()
            .filter(|&s| s.0 == s.1 || !seg_free(outer, s, true) || self.holes.iter().any(|h| !seg_free(h, s, false)))
            .collect();
        if !bad.is_empty() {
            return Answer::Segments(bad);
        }
        let mut all = self.segs.clone();
        all.extend(ss.iter().map(|&(a, b)| key(a, b)));
        self.segs = cut(&all, &self.verts);
        let segs = &self.segs;
        self.verts.retain(|&p| !segs.iter().any(|&(a, b)| on_segment(a, b, p)));
        Answer::Ok
    }
    pub fn insert_hole(&mut self, outer: &[P], h: &[P]) -> Answer {
        let mut bad: BTreeSet<P> = BTreeSet::new();
        if !strictly_inside(outer, h) {
            bad.extend(outer.iter().copied());
        }
        for x in &self.holes {
            if !apart(x, h) {
                bad.extend(x.iter().copied());
            }
        }
        if bad.is_empty() {
            for &s in &self.segs {
                if !seg_free(h, s, false) {
                    bad.insert(s.0);
                    bad.insert(s.1);
                }
            }
        }
        if !bad.is_empty() {
            return Answer::Vertices(bad);
        }
        self.verts.retain(|&p| in_poly(h, p) < 0);
        self.holes.insert(h.to_vec());
        Answer::Ok
    }
    pub fn dom(&self, frame: u8, outer: &[P]) -> Dom {
        let mut d = Dom::new(outer.to_vec()).frame(frame);
        d.holes = self.holes.iter().cloned().collect();
        d.segs = self.segs.iter().copied().collect();
        d.verts = self.verts.iter().copied().collect();
        d
    }
}

// ------------------------------------------------------------------ the implementation seen through the model

pub fn point(f: &Frame, v: &nlsn_delaunay::elements::vertex::Vertex) -> Result<P, String> {
    f.p(v).ok_or_else(|| format!("unexpected vertex {}", v))
}

pub fn observe(f: &Frame, t: &Triangulator) -> Result<Model, String> {
    let mut m = Model::default();
    for h in t.holes.iter() {
        ensure!(!h.opened, "an opened hole");
        let p: Vec<P> = h.vertices.iter().map(|v| point(f, v)).collect::<Result<_, String>>()?;
        m.holes.insert(p);
    }
    ensure!(m.holes.len() == t.holes.len(), "a hole is kept twice");
    for v in t.vertices.iter() {
        m.verts.insert(point(f, v)?);
    }
    ensure!(m.verts.len() == t.vertices.len(), "a vertex is kept twice");
    let mut ends = BTreeSet::new();
    for e in t.segments.iter() {
        let (a, b) = (point(f, &e.v1)?, point(f, &e.v2)?);
        ensure!(a != b, "an empty segment at {:?}", a);
        ends.insert(a);
        ends.insert(b);
        m.segs.insert(key(a, b));
    }
    // a segment kept whole next to pieces of itself covers the same points,
    // but may not reach over ends that belong to other segments
    for &(a, b) in &m.segs {
        for &p in &ends {
            ensure!(!strictly_on(a, b, p), "segment {:?}-{:?} passes through the end {:?}", a, b, p);
        }
    }
    Ok(m)
}

