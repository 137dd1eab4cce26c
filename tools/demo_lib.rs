// What a mesh owes to its domain, by brute force.
#![allow(dead_code)]
use nlsn_delaunay::elements::{edge::*, polyline::*, triangle::*, vertex::*};
use nlsn_delaunay::planar::{refine_params::RefineParams, triangulator::Triangulator};
use std::collections::HashSet;
use std::rc::Rc;

type P = (f64, f64);
fn v(p: P) -> Rc<Vertex> {
    Rc::new(Vertex::new(p.0, p.1))
}
fn poly(ps: &[P]) -> Rc<Polyline> {
    Rc::new(Polyline::new_closed(ps.iter().map(|&p| v(p)).collect()).unwrap())
}
fn seg(a: P, b: P) -> Rc<Edge> {
    Rc::new(Edge::new(&v(a), &v(b)))
}
fn cross(a: P, b: P, c: P) -> f64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
fn area(ps: &[P]) -> f64 {
    (0..ps.len()).map(|i| { let (a, b) = (ps[i], ps[(i + 1) % ps.len()]); a.0 * b.1 - a.1 * b.0 }).sum::<f64>() / 2.0
}
#[derive(Default, Clone)]
struct Domain {
    boundary: Vec<P>,
    holes: Vec<Vec<P>>,
    segments: Vec<(P, P)>,
    vertices: Vec<P>,
}
impl Domain {
    fn triangulator(&self) -> Triangulator {
        let mut t = Triangulator::new(&poly(&self.boundary));
        for h in &self.holes {
            assert!(t.insert_hole(&poly(h)).is_ok(), "hole rejected");
        }
        if !self.segments.is_empty() {
            let s: HashSet<Rc<Edge>> = self.segments.iter().map(|&(a, b)| seg(a, b)).collect();
            assert!(t.insert_segments(&s).is_ok(), "segments rejected");
        }
        if !self.vertices.is_empty() {
            let s: HashSet<Rc<Vertex>> = self.vertices.iter().map(|&p| v(p)).collect();
            assert!(t.insert_vertices(&s).is_ok(), "vertices rejected");
        }
        t
    }
    fn area(&self) -> f64 {
        area(&self.boundary) - self.holes.iter().map(|h| area(h).abs()).sum::<f64>()
    }
}
fn solid(t: &Triangulator) -> Vec<[P; 3]> {
    t.triangulation.borrow().triangles.iter().filter(|t| !t.is_ghost())
        .map(|t| [(t.v1.x, t.v1.y), (t.v2.x, t.v2.y), (t.v3.x, t.v3.y)]).collect()
}
/// None, or what the mesh fails to do.
fn mesh_fault(t: &Triangulator, d: &Domain) -> Option<String> {
    let ts = solid(t);
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + a.abs());
    let total: f64 = ts.iter().map(|t| area(t)).sum();
    if ts.iter().any(|t| cross(t[0], t[1], t[2]) <= 0.0) {
        return Some("a triangle is turned over or flat".into());
    }
    if !near(total, d.area()) {
        return Some(format!("the triangles cover {} of {}", total, d.area()));
    }
    // each constraint is a chain of mesh edges
    let mut constraints = d.segments.clone();
    for p in d.holes.iter().chain(Some(&d.boundary)) {
        constraints.extend((0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])));
    }
    let edges: Vec<(P, P)> = ts.iter().flat_map(|t| vec![(t[0], t[1]), (t[1], t[2]), (t[2], t[0])]).collect();
    let len = |a: P, b: P| ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt();
    let on = |a: P, b: P, p: P| near(len(a, p) + len(p, b), len(a, b));
    let constrained = |a: P, b: P| constraints.iter().any(|&(c, d)| on(c, d, a) && on(c, d, b));
    for &(a, b) in &constraints {
        let mut seen: Vec<(P, P)> = vec![];
        for &(c, d) in &edges {
            if on(a, b, c) && on(a, b, d) && !seen.contains(&(c, d)) && !seen.contains(&(d, c)) {
                seen.push((c, d));
            }
        }
        if !near(seen.iter().map(|e| len(e.0, e.1)).sum(), len(a, b)) {
            return Some(format!("constraint {:?} {:?} is not in the mesh", a, b));
        }
    }
    for &p in &d.vertices {
        if !edges.iter().any(|e| e.0 == p) {
            return Some(format!("vertex {:?} is not in the mesh", p));
        }
    }
    // locally Delaunay across every free edge
    for a in &ts {
        for i in 0..3 {
            let (p, q, r) = (a[i], a[(i + 1) % 3], a[(i + 2) % 3]);
            if constrained(p, q) {
                continue;
            }
            let mut found = false;
            for b in &ts {
                for j in 0..3 {
                    if b[j] == q && b[(j + 1) % 3] == p {
                        found = true;
                        let s = b[(j + 2) % 3];
                        let (ax, ay, bx, by, cx, cy) = (p.0 - s.0, p.1 - s.1, q.0 - s.0, q.1 - s.1, r.0 - s.0, r.1 - s.1);
                        let det = (ax * ax + ay * ay) * (bx * cy - by * cx) - (bx * bx + by * by) * (ax * cy - ay * cx) + (cx * cx + cy * cy) * (ax * by - ay * bx);
                        if det > 1e-9 {
                            return Some(format!("{:?} lies in the circle of {:?}", s, a));
                        }
                    }
                }
            }
            if !found {
                return Some(format!("no triangle behind {:?} {:?}", p, q));
            }
        }
    }
    None
}
/// Runs under several hash orders.
fn run(d: &Domain, n: usize) -> Result<(), String> {
    for _ in 0..n {
        let d = d.clone();
        let r = std::panic::catch_unwind(move || {
            let mut t = d.triangulator();
            t.triangulate();
            mesh_fault(&t, &d)
        });
        match r {
            Err(_) => return Err("panicked".into()),
            Ok(Some(e)) => return Err(e),
            Ok(None) => {}
        }
    }
    Ok(())
}
fn finish(r: Result<(), String>) {
    if let Err(e) = r {
        println!("{}", e);
        std::process::exit(1);
    }
}
