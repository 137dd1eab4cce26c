//! Judging refined meshes against the domain they were made from.
use crate::dom::*;
use crate::ensure;
use crate::geo::*;

pub fn lines(d: &Dom) -> Vec<(P, P)> {
    let mut l = ring(&d.outer);
    l.extend(d.hole_edges());
    l.extend(d.segs.iter().copied());
    l
}

fn fin(p: &[P], q: F, tol: f64) -> i32 {
    // inside, on (within tol) or outside a lattice polygon
    let n = p.len();
    let f = |i: usize| (p[i % n].0 as f64, p[i % n].1 as f64);
    let mut c = false;
    for i in 0..n {
        let (a, b) = (f(i), f(i + 1));
        let l = fdist(a, b);
        let u = ((q.0 - a.0) * (b.0 - a.0) + (q.1 - a.1) * (b.1 - a.1)) / (l * l);
        let h = ((b.0 - a.0) * (q.1 - a.1) - (b.1 - a.1) * (q.0 - a.0)) / l;
        if h.abs() < tol && u > -tol && u < 1.0 + tol {
            return 0;
        }
        if (a.1 > q.1) != (b.1 > q.1) && q.0 < a.0 + (q.1 - a.1) / (b.1 - a.1) * (b.0 - a.0) {
            c = !c;
        }
    }
    if c { 1 } else { -1 }
}

/// The refined triangles still partition exactly the same region, around the
/// same vertices and constraints.
pub fn keeps(d: &Dom, m: &FMesh) -> Result<(), String> {
    for t in &m.tris {
        ensure!(m.area(t) > -m.tol, "triangle {:?} is turned over", t.map(|i| m.pts[i]));
        let p = t.map(|i| m.pts[i]);
        let c = ((p[0].0 + p[1].0 + p[2].0) / 3.0, (p[0].1 + p[1].1 + p[2].1) / 3.0);
        ensure!(fin(&d.outer, c, m.tol) >= 0, "triangle {:?} lies outside the boundary", p);
        for h in &d.holes {
            ensure!(fin(h, c, m.tol) <= 0, "triangle {:?} lies inside a hole", p);
        }
        for q in p {
            ensure!(fin(&d.outer, q, m.tol) >= 0, "vertex {:?} lies outside the boundary", q);
            for h in &d.holes {
                ensure!(fin(h, q, m.tol) <= 0, "vertex {:?} lies inside a hole", q);
            }
        }
    }
    let want = (area2(&d.outer).abs() - d.holes.iter().map(|h| area2(h).abs()).sum::<i128>()) as f64 / 2.0;
    ensure!((m.total() - want).abs() < 1e3 * m.tol * want, "triangles cover {} of {}", m.total(), want);
    for v in d.want().vertices {
        ensure!(
            m.find(v).map_or(false, |i| m.tris.iter().any(|t| t.contains(&i))),
            "vertex {:?} is missing from the refined mesh",
            v
        );
    }
    for (a, b) in lines(d) {
        m.covers_segment(a, b)?;
    }
    Ok(())
}

pub fn bounded(d: &Dom, m: &FMesh) -> Result<(), String> {
    let r = d.refine.unwrap();
    for t in &m.tris {
        let p = t.map(|i| m.pts[i]);
        let q = m.ratio(t);
        ensure!(q < r.quality * (1.0 + m.tol / m.area(t)), "triangle {:?} has radius-edge ratio {} and {} was asked", p, q, r.quality);
        if let Some(a) = r.area {
            ensure!(m.area(t) < a + m.tol, "triangle {:?} has area {} and {} was asked", p, m.area(t), a);
        }
    }
    Ok(())
}

pub fn delaunay(d: &Dom, m: &FMesh) -> Result<(), String> {
    m.delaunay(&lines(d))
}

/// Every two constraint lines that meet do so at 90 degrees or more, as seen
/// from inside the domain.
pub fn wide(d: &Dom) -> bool {
    let corner = |p: &[P]| {
        let n = p.len();
        (0..n).all(|i| {
            let (a, b, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
            orient(a, b, c) <= 0 || dot(b, a, b, c) <= 0
        })
    };
    let rev = |p: &Vec<P>| {
        let mut q = p.clone();
        q.reverse();
        q
    };
    if !corner(&d.outer) || !d.holes.iter().all(|h| corner(&rev(h))) {
        return false;
    }
    for (i, &(a, b)) in d.segs.iter().enumerate() {
        for &(c, e) in &d.segs[..i] {
            if !seg_touch(a, b, c, e) {
                continue;
            }
            // shared ends at a wide angle, or perpendicular meetings
            let sh = |x: P, y: P, z: P, w: P| x == z && dot(x, y, z, w) <= 0;
            let perp = (b.0 - a.0) * (e.0 - c.0) + (b.1 - a.1) * (e.1 - c.1) == 0;
            if !(sh(a, b, c, e) || sh(a, b, e, c) || sh(b, a, c, e) || sh(b, a, e, c) || perp) {
                return false;
            }
        }
    }
    true
}
