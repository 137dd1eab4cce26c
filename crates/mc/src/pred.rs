//! Predicates and measures on vertices, edges and triangles, against exact
//! integer arithmetic, for every tuple of points of small and of mixed-magnitude grids.
use kit::ensure;
use kit::fnc::FnCheck;
use kit::engine::*;
use kit::frame::*;
use kit::geo::*;
use nlsn_delaunay::elements::{bounding_box::BoundingBox, edge::Edge, polyline::*, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::properties::{
    angle::angle, area::*, circumcenter::circumcenter, continence::*, distance::distance, dot::dot as fdot,
    encroachment::encroach, intersection::intersection, midpoint::midpoint, orientation::*, parallel::parallel,
};
use serde::{Deserialize, Serialize};
use std::rc::Rc;

/// A frame and a tuple of grid points.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct T(pub u8, pub Vec<P>);

impl T {
    fn f(&self) -> &'static Frame {
        at(self.0)
    }
    fn p(&self, i: usize) -> P {
        self.1[i]
    }
}

pub fn ghost() -> Rc<Vertex> {
    Rc::new(Vertex::new_ghost())
}

/// points with coordinates of very different magnitudes
pub fn wide(xs: &[i64]) -> Vec<P> {
    let mut v = vec![];
    for &y in xs {
        for &x in xs {
            v.push((x, y));
        }
    }
    v
}
const W8: [i64; 8] = [-1001, -1000, -2, -1, 0, 1, 2, 1000];
const W6: [i64; 6] = [-1000, -7, -1, 0, 1, 1000];
const W5: [i64; 5] = [-1000, -1, 0, 1, 1000];

/// every k-tuple (repetitions included) of the points in every frame of the list
pub fn tuples(pts: &[P], k: usize, frames: &[u8], f: &mut dyn FnMut(T)) {
    for &fr in frames {
        let mut ix = vec![0usize; k];
        loop {
            f(T(fr, ix.iter().map(|&i| pts[i]).collect()));
            let mut j = k;
            loop {
                if j == 0 {
                    break;
                }
                j -= 1;
                ix[j] += 1;
                if ix[j] < pts.len() {
                    break;
                }
                ix[j] = 0;
                if j == 0 {
                    j = usize::MAX;
                    break;
                }
            }
            if j == usize::MAX {
                break;
            }
        }
    }
}

pub const ALLF: [u8; 25] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24];
pub const TEN: [u8; 25] = CYCLE;
/// without the scale at which fourth powers fall below the tolerance

pub const FEW: [u8; 4] = [0, 1, 4, 6];

fn ob(o: &mut Obs, key: impl std::hash::Hash, n: u64) {
    o.runs += n;
    o.trans += n;
    o.state(&key);
}

// ------------------------------------------------------------------ orientation

fn sign(o: &Orientation) -> i32 {
    match o {
        Orientation::Counterclockwise => 1,
        Orientation::Clockwise => -1,
        Orientation::Colinear => 0,
    }
}

fn orientation_check(t: &T, o: &mut Obs) -> Result<(), String> {
    let f = t.f();
    let (a, b, c) = (t.p(0), t.p(1), t.p(2));
    let (va, vb, vc) = (f.v(a), f.v(b), f.v(c));
    let want = orient(a, b, c);
    let got = sign(&orientation(&va, &vb, &vc));
    ob(o, (t.0, want, a == b, b == c, a == c), 1);
    ensure!(got == want, "orientation({},{},{}) is {} instead of {}", va, vb, vc, got, want);
    Ok(())
}

// ------------------------------------------------------------------ circles

fn csign(c: &Continence) -> i32 {
    match c {
        Continence::Inside => 1,
        Continence::Boundary => 0,
        Continence::Outside => -1,
    }
}

fn circle_check(t: &T, o: &mut Obs) -> Result<(), String> {
    let f = t.f();
    let (a, b, c, d) = (t.p(0), t.p(1), t.p(2), t.p(3));
    // half plane of a ghost triangle
    if a != b {
        let tr = Triangle::new(&f.v(a), &f.v(b), &ghost());
        let got = csign(&tr.encircles(&f.v(d)));
        ensure!(got == orient(a, b, d), "ghost triangle on {:?}-{:?} against {:?}: {}", a, b, d, got);
        ob(o, (t.0, 7, got), 1);
    }
    if orient(a, b, c) <= 0 {
        return Ok(());
    }
    let want = incircle(a, b, c, d);
    for (x, y, z) in [(a, b, c), (b, c, a), (c, a, b)] {
        let got = csign(&continence(&f.v(x), &f.v(y), &f.v(z), &f.v(d)));
        ensure!(got == want, "circle through {:?} {:?} {:?} against {:?}: {} instead of {}", x, y, z, d, got, want);
        let tr = f.tri(x, y, z);
        let got = csign(&tr.encircles(&f.v(d)));
        ensure!(got == want, "triangle {:?} {:?} {:?} encircles {:?}: {} instead of {}", x, y, z, d, got, want);
    }
    ob(o, (t.0, want, d == a || d == b || d == c), 6);
    Ok(())
}

fn circle_gen(t: Tier, f: &mut dyn FnMut(T)) {
    tuples(&grid(3, 3), 4, &ALLF, f);
    tuples(&grid(4, 4), 4, t.pick(&[0, 6, 17, 20], &ALLF), f);
    tuples(&wide(&W5), 4, t.pick(&[0], &[0, 1, 3, 5]), f);
    if t.deep() {
        tuples(&grid(5, 5), 4, &[0, 8], f);
    }
}

// ------------------------------------------------------------------ diametral circle

fn encroach_check(t: &T, o: &mut Obs) -> Result<(), String> {
    let f = t.f();
    let (a, b, v) = (t.p(0), t.p(1), t.p(2));
    // (a - v).(b - v) < 0 iff v sees the segment under more than 90 degrees
    let want = -dot(v, a, v, b).signum() as i32;
    let got = csign(&encroach(&f.v(a), &f.v(b), &f.v(v)));
    ensure!(got == want, "encroach({:?},{:?},{:?}) is {} instead of {}", a, b, v, got, want);
    for (x, y) in [(a, b), (b, a)] {
        let got = csign(&f.e(x, y).encroach(&f.v(v)));
        ensure!(got == want, "edge {:?}-{:?} encroached by {:?}: {} instead of {}", x, y, v, got, want);
    }
    ob(o, (t.0, want, a == b), 3);
    Ok(())
}

fn triples_gen(t: Tier, f: &mut dyn FnMut(T)) {
    tuples(&grid(3, 3), 3, &ALLF, f);
    tuples(&grid(5, 4), 3, &ALLF, f);
    tuples(&wide(&W8), 3, t.pick(&[0, 3], &[0, 1, 2, 3, 4, 5, 6, 9]), f);
    if t.deep() {
        tuples(&grid(8, 8), 3, &TEN, f);
    }
}

// ------------------------------------------------------------------ circumcenter

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

fn circumcenter_check(t: &T, o: &mut Obs) -> Result<(), String> {
    let f = t.f();
    let (a, b, c) = (t.p(0), t.p(1), t.p(2));
    let got = circumcenter(&f.v(a), &f.v(b), &f.v(c));
    let tr = f.tri(a, b, c).circumcenter();
    ensure!(
        match (&got, &tr) {
            (None, None) => true,
            (Some(p), Some(q)) => p.x == q.x && p.y == q.y,
            _ => false,
        },
        "the triangle's circumcenter differs from its vertices' for {:?}", t
    );
    ob(o, (t.0, got.is_some(), orient(a, b, c)), 2);
    if orient(a, b, c) == 0 {
        // where rounding takes the points off the line, the center is very far away
        ensure!(got.is_none() || !f.is_exact(), "circumcenter of collinear {:?} {:?} {:?}: {}", a, b, c, got.unwrap());
        return Ok(());
    }
    let g = match got {
        Some(g) => g,
        None => return Err(format!("no circumcenter for {:?} {:?} {:?}", a, b, c)),
    };
    ensure!(!g.is_ghost, "circumcenter is a ghost");
    let k = |p: P| (p.0 as i128, p.1 as i128);
    let (bx, by) = (k(b).0 - k(a).0, k(b).1 - k(a).1);
    let (cx, cy) = (k(c).0 - k(a).0, k(c).1 - k(a).1);
    let d = 2 * (bx * cy - by * cx);
    let (b2, c2) = (bx * bx + by * by, cx * cx + cy * cy);
    let ux = a.0 as f64 + (cy * b2 - by * c2) as f64 / d as f64;
    let uy = a.1 as f64 + (bx * c2 - cx * b2) as f64 / d as f64;
    let (gx, gy) = f.back(g.x, g.y);
    // the coordinates carry the rounding of the largest one; the circle that of its own size
    let span = [bx, by, cx, cy].iter().map(|l| l.abs()).max().unwrap() as f64;
    let far = [a, b, c].iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap() as f64
        + (f.ox.abs().max(f.oy.abs()) as f64) / f.scale();
    let carried = if f.is_exact() { 1.0 } else { span * span * span };
    let tol = 1e-12 * span * span * span + 1e-15 * far * carried;
    ensure!(close(gx, ux, tol) && close(gy, uy, tol), "circumcenter of {:?} {:?} {:?} at ({}, {}) instead of ({}, {})", a, b, c, gx, gy, ux, uy);
    let gt = Triangle::new(&f.v(a), &f.v(b), &ghost());
    ensure!(gt.circumcenter().is_none(), "a ghost triangle has a circumcenter");
    Ok(())
}

// ------------------------------------------------------------------ segment intersection

fn cross_check(t: &T, o: &mut Obs) -> Result<(), String> {
    let f = t.f();
    let (a, b, c, d) = (t.p(0), t.p(1), t.p(2), t.p(3));
    let (va, vb, vc, vd) = (f.v(a), f.v(b), f.v(c), f.v(d));
    let par = (b.0 - a.0) as i128 * (d.1 - c.1) as i128 - (b.1 - a.1) as i128 * (d.0 - c.0) as i128 == 0;
    ensure!(parallel(&va, &vb, &vc, &vd) == par, "parallel({:?}-{:?}, {:?}-{:?}) is not {}", a, b, c, d, par);
    let got = intersection(&va, &vb, &vc, &vd);
    let want = seg_touch(a, b, c, d);
    ob(o, (t.0, par, want, proper_cross(a, b, c, d), a == b || c == d), 2);
    ensure!(
        got.is_some() == want,
        "segments {:?}-{:?} and {:?}-{:?} meet: {} instead of {}", a, b, c, d, got.is_some(), want
    );
    if let Some(g) = got {
        ensure!(!g.is_ghost, "intersection is a ghost");
        let (x, y) = f.back(g.x, g.y);
        let tol = 1e-9 + 16.0 * f.grain();
        if !par {
            let (qx, qy) = cross_point(a, b, c, d).unwrap();
            ensure!(
                close(x, qx.f(), tol) && close(y, qy.f(), tol),
                "segments {:?}-{:?} and {:?}-{:?} meet at ({}, {}) instead of ({}, {})", a, b, c, d, x, y, qx.f(), qy.f()
            );
        } else {
            // any common point stands for an overlap
            for (s, e) in [(a, b), (c, d)] {
                let (sf, ef) = ((s.0 as f64, s.1 as f64), (e.0 as f64, e.1 as f64));
                let off = (ef.0 - sf.0) * (y - sf.1) - (ef.1 - sf.1) * (x - sf.0);
                let inx = x >= sf.0.min(ef.0) - tol && x <= sf.0.max(ef.0) + tol;
                let iny = y >= sf.1.min(ef.1) - tol && y <= sf.1.max(ef.1) + tol;
                ensure!(off.abs() < 1e-6 && inx && iny, "({}, {}) is not on {:?}-{:?}", x, y, s, e);
            }
        }
    }
    Ok(())
}

fn cross_gen(t: Tier, f: &mut dyn FnMut(T)) {
    tuples(&grid(3, 3), 4, &TEN, f);
    tuples(&grid(4, 3), 4, &FEW, f);
    tuples(&grid(4, 4), 4, t.pick(&[0, 2], &TEN), f);
    // mixed magnitudes
    tuples(&wide(&[-8, -1, 0, 1, 64]), 4, t.pick(&[0], &FEW), f);
    if t.deep() {
        tuples(&grid(5, 5), 4, &[0, 6], f);
    }
}

// ------------------------------------------------------------------ measures

fn measures_check(t: &T, o: &mut Obs) -> Result<(), String> {
    let f = t.f();
    let s = f.scale();
    let (a, b, c) = (t.p(0), t.p(1), t.p(2));
    let (va, vb, vc) = (f.v(a), f.v(b), f.v(c));
    let len = |p: P, q: P| (dist2(p, q) as f64).sqrt() * s;
    let far = [&va, &vb, &vc].iter().map(|v| v.x.abs().max(v.y.abs())).fold(s, f64::max);
    let rel = |x: f64, y: f64| (x - y).abs() <= 1e-9 * (x.abs() + y.abs()) + 1e-12 * s * far.max(1.0);
    ob(o, (t.0, orient(a, b, c), a == b, b == c), 12);
    // lengths
    ensure!(rel(distance(&va, &vb), len(a, b)), "distance {:?} {:?} is {}", a, b, distance(&va, &vb));
    ensure!(rel(f.e(a, b).length(), len(a, b)), "length of {:?}-{:?} is {}", a, b, f.e(a, b).length());
    // dot product
    let w = dot(a, b, b, c) as f64 * s * s;
    ensure!(rel(fdot(&va, &vb, &vb, &vc), w), "dot of {:?}{:?} and {:?}{:?} is {}", a, b, b, c, fdot(&va, &vb, &vb, &vc));
    // midpoints
    for m in [midpoint(&va, &vb), f.e(a, b).midpoint()] {
        let (x, y) = f.back(m.x, m.y);
        ensure!(
            close(x * 2.0, (a.0 + b.0) as f64, 1e-6) && close(y * 2.0, (a.1 + b.1) as f64, 1e-6) && !m.is_ghost,
            "midpoint of {:?} {:?} is {}", a, b, m
        );
    }
    for (x, y) in [(&va, &ghost()), (&ghost(), &va)] {
        ensure!(midpoint(x, y).is_ghost, "midpoint with a ghost is not a ghost");
    }
    // areas: positive iff counterclockwise
    let area = cross(a, b, c) as f64 * s * s / 2.0;
    // the coordinates carry the rounding of the largest one
    let long = len(a, b).max(len(b, c)).max(len(c, a));
    let atol = 1e-15 * long * far + 1e-9 * area.abs();
    let got = area_triangle(&va, &vb, &vc);
    ensure!((got - area).abs() <= atol, "area of {:?} {:?} {:?} is {} instead of {}", a, b, c, got, area);
    let tr = f.tri(a, b, c);
    ensure!(tr.area() == Some(got), "area of the triangle {:?} is {:?}", (a, b, c), tr.area());
    // center
    let g = tr.center();
    let (x, y) = f.back(g.x, g.y);
    ensure!(
        close(x * 3.0, (a.0 + b.0 + c.0) as f64, 1e-6) && close(y * 3.0, (a.1 + b.1 + c.1) as f64, 1e-6),
        "center of {:?} {:?} {:?} is {}", a, b, c, g
    );
    let gt = Triangle::new(&va, &vb, &ghost());
    ensure!(gt.is_ghost() && !tr.is_ghost(), "is_ghost is wrong");
    ensure!(gt.area().is_none() && gt.quality().is_none() && gt.as_polyline().is_none(), "a ghost triangle has an area, quality or polyline");
    let g = gt.center();
    let (x, y) = f.back(g.x, g.y);
    ensure!(close(x * 2.0, (a.0 + b.0) as f64, 1e-6) && close(y * 2.0, (a.1 + b.1) as f64, 1e-6), "center of a ghost triangle on {:?} {:?} is {}", a, b, g);
    // signed area of a closed chain of segments: positive iff clockwise
    let chain = vec![(va.clone(), vb.clone()), (vb.clone(), vc.clone()), (vc.clone(), va.clone())];
    let got = area_segments(&chain);
    ensure!((got + area).abs() <= atol, "area of the chain {:?} {:?} {:?} is {} instead of {}", a, b, c, got, -area);
    if area != 0.0 {
        let w = if area > 0.0 { Orientation::Counterclockwise } else { Orientation::Clockwise };
        ensure!(segments_orientation(&chain) == w, "orientation of the chain {:?} {:?} {:?}", a, b, c);
    }
    // shape quality: circumradius over shortest side
    if area > 0.0 {
        let l = [len(a, b), len(b, c), len(c, a)];
        let m = l[0].min(l[1]).min(l[2]);
        let w = l[0] * l[1] * l[2] / (4.0 * area) / m;
        let got = tr.quality().unwrap();
        ensure!((got - w).abs() <= w * (1e-9 + 4.0 * atol / area), "quality of {:?} {:?} {:?} is {} instead of {}", a, b, c, got, w);
    }
    // the angle a-b-c, turning from c to a clockwise interior: [0, 2 pi)
    if a != b && b != c {
        let got = angle(&va, &vb, &vc).unwrap();
        let x = dot(b, a, b, c) as f64;
        let y = cross(a, b, c) as f64;
        let mut w = y.atan2(x);
        if w < 0.0 {
            w += 2.0 * std::f64::consts::PI;
        }
        ensure!((got - w).abs() < 1e-6, "angle {:?} {:?} {:?} is {} instead of {}", a, b, c, got, w);
    }
    Ok(())
}

// ------------------------------------------------------------------ triangle topology

fn topology_check(t: &T, o: &mut Obs) -> Result<(), String> {
    let f = t.f();
    let (a, b, c, d) = (t.p(0), t.p(1), t.p(2), t.p(3));
    if orient(a, b, c) == 0 {
        return Ok(());
    }
    let tr = f.tri(a, b, c);
    let same = |e: &Edge, x: P, y: P| *e == *f.e(x, y);
    let (e1, e2, e3) = tr.inner_edges();
    ensure!(same(&e1, a, b) && same(&e2, b, c) && same(&e3, c, a), "inner edges of {:?}", (a, b, c));
    let (e1, e2, e3) = tr.outer_edges();
    ensure!(same(&e1, b, a) && same(&e2, c, b) && same(&e3, a, c), "outer edges of {:?}", (a, b, c));
    for (x, y, z) in [(a, b, c), (b, c, a), (c, a, b)] {
        ensure!(tr.opposite_vertex(&f.e(x, y)).map(|v| *v == *f.v(z)) == Some(true), "vertex opposite to {:?}-{:?} of {:?}", x, y, (a, b, c));
        ensure!(tr.opposite_vertex(&f.e(y, x)).is_none(), "reversed side has an opposite vertex");
        ensure!(tr.opposite_edge(&f.v(z)).map(|e| same(&e, x, y)) == Some(true), "edge opposite to {:?} of {:?}", z, (a, b, c));
    }
    if d != a && d != b && d != c {
        ensure!(tr.opposite_edge(&f.v(d)).is_none(), "a foreign vertex has an opposite edge");
        ensure!(tr.opposite_vertex(&f.e(a, d)).is_none() && tr.opposite_vertex(&f.e(d, a)).is_none(), "a foreign edge has an opposite vertex");
    }
    let e = f.e(a, b);
    ensure!(same(&e.opposite(), b, a), "opposite of {:?}-{:?}", a, b);
    let pl = e.as_polyline().unwrap();
    ensure!(pl.opened && pl.vertices.len() == 2 && *pl.vertices[0] == *f.v(a) && *pl.vertices[1] == *f.v(b), "polyline of an edge");
    ensure!(Edge::new(&f.v(a), &ghost()).as_polyline().is_none() && Edge::new(&ghost(), &f.v(a)).as_polyline().is_none(), "polyline of a ghost edge");
    let pt = tr.as_polyline().unwrap();
    ensure!(!pt.opened && pt.vertices.len() == 3 && *pt.vertices[0] == *f.v(a) && *pt.vertices[1] == *f.v(b) && *pt.vertices[2] == *f.v(c), "polyline of a triangle");
    // on-segment test
    let want = on_segment(a, b, d);
    ensure!(f.e(a, b).contains(&f.v(d)) == want, "{:?}-{:?} contains {:?} is not {}", a, b, d, want);
    ob(o, (t.0, want, orient(a, b, d)), 10);
    Ok(())
}

// ------------------------------------------------------------------ bounding boxes

fn bbox_check(t: &T, o: &mut Obs) -> Result<(), String> {
    let f = t.f();
    let b = |i: usize, j: usize| BoundingBox::from_vertices(vec![f.v(t.p(i)), f.v(t.p(j))]).unwrap();
    let n = t.1.len();
    let xy: Vec<(f64, f64)> = t.1.iter().map(|&p| f.xy(p)).collect();
    let range = |ix: &[usize]| {
        let mut r = (f64::MAX, f64::MAX, f64::MIN, f64::MIN);
        for &i in ix {
            r = (r.0.min(xy[i].0), r.1.min(xy[i].1), r.2.max(xy[i].0), r.3.max(xy[i].1));
        }
        r
    };
    let is = |b: &BoundingBox, r: (f64, f64, f64, f64)| b.origin.x == r.0 && b.origin.y == r.1 && b.destin.x == r.2 && b.destin.y == r.3;
    let all: Vec<usize> = (0..n).collect();
    let whole = BoundingBox::from_vertices(t.1.iter().map(|&p| f.v(p)).collect()).unwrap();
    let wr = range(&all);
    ensure!(is(&whole, wr), "bounding box of {:?}: {} {}", t.1, whole.origin, whole.destin);
    let pl = f.open(&t.1).bounding_box().unwrap();
    ensure!(is(&pl, wr), "bounding box of the polyline {:?}", t.1);
    for x in 0..n {
        let inside = |r: (f64, f64, f64, f64)| xy[x].0 >= r.0 && xy[x].0 <= r.2 && xy[x].1 >= r.1 && xy[x].1 <= r.3;
        for (i, j) in [(0, 1), (2, 3)] {
            ensure!(b(i, j).contains(&f.v(t.p(x))) == inside(range(&[i, j])), "box {:?}-{:?} contains {:?}", t.p(i), t.p(j), t.p(x));
        }
        ensure!(whole.contains(&f.v(t.p(x))), "box of {:?} does not contain {:?}", t.1, t.p(x));
    }
    let (r, q) = (range(&[0, 1]), range(&[2, 3]));
    let w = (r.0.max(q.0), r.1.max(q.1), r.2.min(q.2), r.3.min(q.3));
    let meets = w.0 <= w.2 && w.1 <= w.3;
    let got = BoundingBox::intersection(&b(0, 1), &b(2, 3));
    ensure!(got.is_some() == meets, "boxes {:?} meet: {}", t.1, got.is_some());
    if let Some(g) = got {
        ensure!(is(&g, w), "boxes {:?} meet in {} {}", t.1, g.origin, g.destin);
    }
    ensure!(is(&BoundingBox::union(&b(0, 1), b(2, 3)), wr), "union of boxes {:?}", t.1);
    ensure!(is(&BoundingBox::union_list(vec![b(0, 1), b(2, 3)]).unwrap(), wr), "union of the list of boxes {:?}", t.1);
    ensure!(is(&BoundingBox::union_list(vec![b(0, 0), b(2, 2), b(1, 3)]).unwrap(), wr), "union of three boxes {:?}", t.1);
    ensure!(BoundingBox::union_list(vec![]).is_none() && BoundingBox::from_vertices(vec![]).is_none(), "box of nothing");
    ob(o, (t.0, meets), 16);
    Ok(())
}

// ------------------------------------------------------------------ equality, hash, order

fn hash_of<H: std::hash::Hash + ?Sized>(x: &H) -> u64 {
    let mut h = kit::run::Fnv::default();
    x.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

/// grid point or ghost (coded as a far away point)
const GHOST: P = (99, 99);
fn vx(f: &Frame, p: P, neg: bool) -> Rc<Vertex> {
    if p == GHOST {
        ghost()
    } else {
        Frame { neg, ..*f }.v(p)
    }
}

/// code of the case where coordinates differ by rounding
const ROUNDING: u8 = 200;

/// Coordinates a rounding apart.
fn rounding_check(t: &T) -> Result<(), String> {
    let at = |k: f64| Vertex::new(t.p(0).0 as f64 + k, t.p(0).1 as f64);
    let (a, b) = (at(0.3), at(0.1 + 0.2));
    ensure!(a != b || hash_of(&a) == hash_of(&b), "vertices a rounding apart are equal and hash differently: {} and {}", a, b);
    Ok(())
}

fn equality_check(t: &T, o: &mut Obs) -> Result<(), String> {
    if t.0 == ROUNDING {
        return rounding_check(t);
    }
    let f = t.f();
    let n = t.1.len();
    for neg in [false, true] {
        let u: Vec<Rc<Vertex>> = t.1.iter().map(|&p| vx(f, p, false)).collect();
        let w: Vec<Rc<Vertex>> = t.1.iter().map(|&p| vx(f, p, neg)).collect();
        for i in 0..n {
            for j in 0..n {
                let same = t.p(i) == t.p(j);
                ensure!((u[i] == w[j]) == same, "{} == {} is not {}", u[i], w[j], same);
                ensure!(!same || hash_of(&u[i]) == hash_of(&w[j]), "equal vertices {} hash differently", u[i]);
                if t.p(i) != GHOST && t.p(j) != GHOST {
                    let (a, b) = (f.xy(t.p(i)), f.xy(t.p(j)));
                    let want = a.partial_cmp(&b).unwrap();
                    ensure!(u[i].cmp(&w[j]) == want && u[i].partial_cmp(&w[j]) == Some(want), "{} against {} is not {:?}", u[i], w[j], want);
                }
            }
        }
        // edges: oriented
        if n >= 4 {
            let e = Edge::new(&u[0], &u[1]);
            let g = Edge::new(&w[2], &w[3]);
            let same = t.p(0) == t.p(2) && t.p(1) == t.p(3);
            ensure!((e == g) == same, "{} == {} is not {}", e, g, same);
            ensure!(!same || hash_of(&e) == hash_of(&g), "equal edges {} hash differently", e);
            let r = e.opposite();
            ensure!((e == r) == (t.p(0) == t.p(1)), "{} equals its opposite", e);
        }
        // triangles: up to rotation
        if n >= 6 {
            let a = Rc::new(Triangle::new(&u[0], &u[1], &u[2]));
            let b = Rc::new(Triangle::new(&w[3], &w[4], &w[5]));
            let same = (0..3).any(|s| (0..3).all(|i| t.p(i) == t.p(3 + (i + s) % 3)));
            ensure!((a == b) == same, "{} == {} is not {}", a, b, same);
            ensure!(!same || hash_of(&a) == hash_of(&b), "equal triangles {} and {} hash differently", a, b);
            let mut hs: kit::HashSet<Rc<Triangle>> = kit::HashSet::default();
            hs.insert(a.clone());
            ensure!(hs.contains(&b) == same, "set of {} contains {} is not {}", a, b, same);
            let p = Polyline::new_closed(vec![u[0].clone(), u[1].clone(), u[2].clone()]).unwrap();
            let q = Polyline::new_closed(vec![w[3].clone(), w[4].clone(), w[5].clone()]).unwrap();
            let r = Polyline::new_opened(vec![w[3].clone(), w[4].clone(), w[5].clone()]).unwrap();
            let same = (0..3).all(|i| t.p(i) == t.p(3 + i));
            ensure!((p == q) == same, "polylines {:?} equal is not {}", t.1, same);
            ensure!(!same || hash_of(&p) == hash_of(&q), "equal polylines hash differently {:?}", t.1);
            ensure!(p != r, "closed and opened polylines are equal {:?}", t.1);
        }
        ob(o, (t.0, neg, hash_of(&t.1)), (n * n) as u64);
    }
    // sorting: lexicographic, a permutation
    if t.1.iter().all(|&p| p != GHOST) {
        let mut v: Vec<Rc<Vertex>> = t.1.iter().map(|&p| f.v(p)).collect();
        Vertex::sort(&mut v);
        let mut w: Vec<(f64, f64)> = t.1.iter().map(|&p| f.xy(p)).collect();
        w.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ensure!(v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| a.x == b.0 && a.y == b.1), "sort of {:?} gives {:?}", t.1, v);
    }
    // lists of coordinates
    let raw: Vec<f64> = t.1.iter().flat_map(|&p| { let q = f.xy(p); vec![q.0, q.1] }).collect();
    let v = Vertex::from_coordinates(&raw);
    ensure!(v.len() == n && (0..n).all(|i| v[i].x == raw[2 * i] && v[i].y == raw[2 * i + 1] && !v[i].is_ghost), "vertices from {:?}", raw);
    for es in [Edge::from_coordinates(&raw), Edge::from_vertices(&v)] {
        ensure!(es.len() == n && (0..n).all(|i| *es[i].v1 == *v[i] && *es[i].v2 == *v[(i + 1) % n]), "edges from {:?}", raw);
    }
    let pairs = vertex_pairs(&v, false);
    ensure!(pairs.len() == n && (0..n).all(|i| pairs[i].0 == v[i] && pairs[i].1 == v[(i + 1) % n]), "closed pairs of {:?}", raw);
    let pairs = vertex_pairs(&v, true);
    ensure!(pairs.len() == n - 1 && (0..n - 1).all(|i| pairs[i].0 == v[i] && pairs[i].1 == v[i + 1]), "opened pairs of {:?}", raw);
    Ok(())
}

fn equality_gen(t: Tier, f: &mut dyn FnMut(T)) {
    f(T(ROUNDING, vec![(0, 0)]));
    let mut g = grid(2, 2);
    g.push(GHOST);
    tuples(&g, 6, &[0, 1], f);
    let mut g = grid(3, 2);
    g.push((-1, 0));
    g.push(GHOST);
    tuples(&g, 4, &TEN, f);
    tuples(&grid(4, 3), 3, &TEN, f);
    tuples(&grid(3, 3), 5, t.pick(&[1], &[0, 1, 2, 4, 5]), f);
    if t.deep() {
        let mut g = grid(3, 2);
        g.push(GHOST);
        tuples(&g, 6, &[0, 1, 3, 6, 9], f);
    }
}

pub fn checks() -> Vec<FnCheck<T>> {
    vec![
        FnCheck {
            id: "C18",
            bounds: |t| format!("every triple of points (repetitions included) of the 3x3 and 5x4 grids in 25 frames and of the 8x8 mixed-magnitude lattice in {} frames{}", t.pick(2, 8), t.pick("", "; 8x8 grid in 25 frames")),
            gen: triples_gen,
            check: orientation_check,
            assume: &["frames map the integer grid exactly into f64, but for those in tenths or turned by an odd angle, where lines and circles of the grid count as such; determinants of non-collinear triples stay above the code's absolute tolerance"],
        },
        FnCheck {
            id: "C19",
            bounds: |t| format!("every quadruple of points of the 3x3 grid in 25 frames, the 4x4 grid in {} frames, the 5x5 mixed-magnitude lattice in {} frames{}", t.pick(4, 23), t.pick(1, 4), t.pick("", "; 5x5 grid in 2 frames")),
            gen: circle_gen,
            check: circle_check,
            assume: &["in-circle determinants of non-cocircular quadruples stay above the code's absolute tolerance"],
        },
        FnCheck {
            id: "C20",
            bounds: |t| format!("every triple of points of the 3x3 and 5x4 grids in 25 frames and of the 8x8 mixed-magnitude lattice in {} frames{}", t.pick(2, 8), t.pick("", "; 8x8 grid in 25 frames")),
            gen: triples_gen,
            check: encroach_check,
            assume: &[],
        },
        FnCheck {
            id: "C21",
            bounds: |t| format!("every triple of points of the 4x4 grid in 25 frames, the 6x6 mixed-magnitude lattice in {} frames", t.pick(1, 4)),
            gen: |t, f| {
                tuples(&grid(4, 4), 3, &ALLF, f);
                tuples(&wide(&W6), 3, t.pick(&[0], &[0, 1, 2, 3]), f);
                if t.deep() {
                    tuples(&grid(9, 9), 3, &FEW, f);
                }
            },
            check: circumcenter_check,
            assume: &["coordinates are compared within 1e-12 of the cube of the size of the triangle and the rounding of the given ones"],
        },
        FnCheck {
            id: "C22",
            bounds: |t| format!("every pair of segments (degenerate ones included) on the 3x3 grid in 25 frames, the 4x3 grid in 4, the 4x4 grid in {} frames and a 5x5 mixed-magnitude lattice in {}{}", t.pick(2, 13), t.pick(1, 4), t.pick("", "; 5x5 grid in 2 frames")),
            gen: cross_gen,
            check: cross_check,
            assume: &[],
        },
        FnCheck {
            id: "C23",
            bounds: |t| format!("every triple of points of the 3x3 and 5x4 grids in 25 frames and of the 8x8 mixed-magnitude lattice in {} frames", t.pick(2, 8)),
            gen: triples_gen,
            check: measures_check,
            assume: &["measures are compared within 1e-9 relative, areas also within 1e-15 of the coordinates times the size of the triangle"],
        },
        FnCheck {
            id: "C26",
            bounds: |t| format!("every 6-tuple of the 2x2 grid with the ghost vertex in {} frames, 4-tuples of 8 points in 25 frames, 3-tuples of the 4x3 grid in 25 frames, 5-tuples of the 3x3 grid; zeros written with both signs", t.pick(2, 5)),
            gen: equality_gen,
            check: equality_check,
            assume: &["but for one recorded case, coordinates are either equal or further apart than the tolerance"],
        },
        FnCheck {
            id: "C31",
            bounds: |t| format!("every quadruple of points of the 3x3 grid in 25 frames and of the 4x4 grid in {} frames", t.pick(1, 4)),
            gen: |t, f| {
                tuples(&grid(3, 3), 4, &ALLF, f);
                tuples(&grid(4, 4), 4, t.pick(&[0], &FEW), f);
            },
            check: topology_check,
            assume: &[],
        },
        FnCheck {
            id: "C33",
            bounds: |t| format!("every quadruple of points of the 3x3 grid in 25 frames, the 4x4 grid in {} and the 5x5 mixed-magnitude lattice", t.pick(1, 4)),
            gen: |t, f| {
                tuples(&grid(3, 3), 4, &TEN, f);
                tuples(&grid(4, 4), 4, t.pick(&[0], &FEW), f);
                tuples(&wide(&W5), 4, t.pick(&[0], &[0, 1, 3]), f);
            },
            check: bbox_check,
            assume: &[],
        },
    ]
}
