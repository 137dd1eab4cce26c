//! Reading meshes out of the implementation and judging them with exact arithmetic.
use crate::frame::Frame;
use crate::geo::*;
use nlsn_delaunay::elements::vertex::Vertex;
use nlsn_delaunay::planar::triangulation::Triangulation;
use std::collections::{BTreeMap, BTreeSet};

/// A vertex reference in a mesh: None is the ghost vertex.
pub type R = Option<P>;

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Mesh {
    /// solid triangles, smallest vertex first, rotation preserved
    pub solid: Vec<[P; 3]>,
    /// ghost triangles as their solid directed edge
    pub ghosts: Vec<(P, P)>,
}

pub fn canon(t: [P; 3]) -> [P; 3] {
    let m = (0..3).min_by_key(|&i| t[i]).unwrap();
    [t[m], t[(m + 1) % 3], t[(m + 2) % 3]]
}

/// Extract the mesh, checking the structural invariants of the container:
/// every triangle's three directed edges map back to it, nothing else is in
/// the adjacency, no directed edge is used twice, and every edge's opposite is
/// there as well (a closed surface, ghosts included).
pub fn extract(fr: &Frame, t: &Triangulation) -> Result<Mesh, String> {
    let (m, _) = extract_opts(fr, t, true)?;
    Ok(m)
}

pub fn extract_opts(fr: &Frame, t: &Triangulation, closed: bool) -> Result<(Mesh, BTreeSet<(R, R)>), String> {
    let mut dir: BTreeMap<(R, R), usize> = BTreeMap::new();
    let mut m = Mesh::default();
    let mut n = 0;
    let cv = |x: &Vertex| -> Result<R, String> {
        if x.is_ghost {
            Ok(None)
        } else {
            fr.p(x).map(Some).ok_or_else(|| format!("unexpected vertex {}", x))
        }
    };
    let mut list: Vec<[R; 3]> = Vec::new();
    for tr in t.triangles.iter() {
        let r = [cv(&tr.v1)?, cv(&tr.v2)?, cv(&tr.v3)?];
        list.push(r);
        n += 1;
        for i in 0..3 {
            if dir.insert((r[i], r[(i + 1) % 3]), n).is_some() {
                return Err(format!("directed edge {:?}->{:?} belongs to two triangles", r[i], r[(i + 1) % 3]));
            }
        }
        match r.iter().filter(|x| x.is_none()).count() {
            0 => m.solid.push(canon([r[0].unwrap(), r[1].unwrap(), r[2].unwrap()])),
            1 => {
                let g = r.iter().position(|x| x.is_none()).unwrap();
                m.ghosts.push((r[(g + 1) % 3].unwrap(), r[(g + 2) % 3].unwrap()));
            }
            _ => return Err(format!("triangle with several ghost vertices {:?}", r)),
        }
    }
    if t.adjacency.len() != dir.len() {
        return Err(format!("adjacency has {} entries for {} triangle sides", t.adjacency.len(), dir.len()));
    }
    for (ed, tr) in t.adjacency.iter() {
        let k = (cv(&ed.v1)?, cv(&ed.v2)?);
        let r = [cv(&tr.v1)?, cv(&tr.v2)?, cv(&tr.v3)?];
        match dir.get(&k) {
            None => return Err(format!("adjacency entry {:?} has no triangle", k)),
            Some(&i) => {
                let own = list[i - 1];
                let same = (0..3).any(|s| (0..3).all(|j| own[j] == r[(j + s) % 3]));
                if !same {
                    return Err(format!("adjacency entry {:?} points at a foreign triangle", k));
                }
            }
        }
    }
    if closed {
        for (a, b) in dir.keys() {
            if !dir.contains_key(&(*b, *a)) {
                return Err(format!("edge {:?}->{:?} has no neighbour on its other side", a, b));
            }
        }
    }
    m.solid.sort();
    m.ghosts.sort();
    Ok((m, dir.keys().cloned().collect()))
}

impl Mesh {
    pub fn area2(&self) -> i128 {
        self.solid.iter().map(|t| cross(t[0], t[1], t[2])).sum()
    }
    pub fn ccw(&self) -> Result<(), String> {
        for t in &self.solid {
            if orient(t[0], t[1], t[2]) <= 0 {
                return Err(format!("triangle {:?} is not counterclockwise", t));
            }
        }
        Ok(())
    }
    pub fn vertices(&self) -> BTreeSet<P> {
        self.solid.iter().flat_map(|t| t.iter().copied()).collect()
    }
    pub fn edges(&self) -> BTreeSet<(P, P)> {
        let mut s = BTreeSet::new();
        for t in &self.solid {
            for i in 0..3 {
                s.insert((t[i], t[(i + 1) % 3]));
            }
        }
        s
    }
    pub fn has_edge(&self, a: P, b: P) -> bool {
        self.solid.iter().any(|t| {
            (0..3).any(|i| {
                let (x, y) = (t[i], t[(i + 1) % 3]);
                (x, y) == (a, b) || (x, y) == (b, a)
            })
        })
    }
    /// Locally Delaunay across every unconstrained interior edge (which for a
    /// triangulation of a domain is equivalent to constrained Delaunay).
    pub fn delaunay(&self, constrained: &dyn Fn(P, P) -> bool) -> Result<(), String> {
        let mut opp: BTreeMap<(P, P), P> = BTreeMap::new();
        for t in &self.solid {
            for i in 0..3 {
                opp.insert((t[i], t[(i + 1) % 3]), t[(i + 2) % 3]);
            }
        }
        for (&(a, b), &c) in &opp {
            if constrained(a, b) || constrained(b, a) {
                continue;
            }
            if let Some(&d) = opp.get(&(b, a)) {
                if incircle(a, b, c, d) > 0 {
                    return Err(format!("{:?} lies inside the circumcircle of {:?}", d, [a, b, c]));
                }
            }
        }
        Ok(())
    }
    /// The solid triangles partition the region (outer boundary minus holes):
    /// right total area, every triangle counterclockwise and inside.
    pub fn covers(&self, outer: &[P], holes: &[Vec<P>]) -> Result<(), String> {
        self.ccw()?;
        let want: i128 = area2(outer).abs() - holes.iter().map(|h| area2(h).abs()).sum::<i128>();
        if self.area2() != want {
            return Err(format!("triangles cover twice-area {} of {}", self.area2(), want));
        }
        let o6 = scale(outer, 3);
        let hs: Vec<Vec<P>> = holes.iter().map(|h| scale(h, 3)).collect();
        for t in &self.solid {
            let c = (t[0].0 + t[1].0 + t[2].0, t[0].1 + t[1].1 + t[2].1);
            if in_poly(&o6, c) <= 0 {
                return Err(format!("triangle {:?} lies outside the boundary", t));
            }
            if hs.iter().any(|h| in_poly(h, c) >= 0) {
                return Err(format!("triangle {:?} lies inside a hole", t));
            }
        }
        // no overlap
        for i in 0..self.solid.len() {
            for j in 0..i {
                if overlap(&self.solid[i], &self.solid[j]) {
                    return Err(format!("triangles {:?} and {:?} overlap", self.solid[i], self.solid[j]));
                }
            }
        }
        Ok(())
    }
}

/// The open triangles intersect (both counterclockwise): no edge separates them.
pub fn overlap(a: &[P; 3], b: &[P; 3]) -> bool {
    let sep = |x: &[P; 3], y: &[P; 3]| {
        (0..3).any(|i| (0..3).all(|j| orient(x[i], x[(i + 1) % 3], y[j]) <= 0))
    };
    !(sep(a, b) || sep(b, a))
}
