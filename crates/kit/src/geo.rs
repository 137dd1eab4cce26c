//! Exact integer / rational geometry: the boring reference the code is compared with.
use std::cmp::Ordering;

pub type P = (i64, i64);

pub fn orient(a: P, b: P, c: P) -> i32 {
    let d = cross(a, b, c);
    if d > 0 { 1 } else if d < 0 { -1 } else { 0 }
}

/// Twice the signed area of (a, b, c).
pub fn cross(a: P, b: P, c: P) -> i128 {
    (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128
}

pub fn dot(a: P, b: P, c: P, d: P) -> i128 {
    (b.0 - a.0) as i128 * (d.0 - c.0) as i128 + (b.1 - a.1) as i128 * (d.1 - c.1) as i128
}

pub fn dist2(a: P, b: P) -> i128 {
    dot(a, b, a, b)
}

/// In-circle determinant for counterclockwise (a, b, c): > 0 iff d is strictly inside.
pub fn incircle_det(a: P, b: P, c: P, d: P) -> i128 {
    let r = |p: P| ((p.0 - d.0) as i128, (p.1 - d.1) as i128);
    let (ax, ay) = r(a);
    let (bx, by) = r(b);
    let (cx, cy) = r(c);
    let a2 = ax * ax + ay * ay;
    let b2 = bx * bx + by * by;
    let c2 = cx * cx + cy * cy;
    ax * (by * c2 - b2 * cy) - ay * (bx * c2 - b2 * cx) + a2 * (bx * cy - by * cx)
}

pub fn incircle(a: P, b: P, c: P, d: P) -> i32 {
    let x = incircle_det(a, b, c, d);
    if x > 0 { 1 } else if x < 0 { -1 } else { 0 }
}

pub fn on_segment(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}

/// p strictly between a and b on the segment
pub fn strictly_on(a: P, b: P, p: P) -> bool {
    p != a && p != b && on_segment(a, b, p)
}

pub fn proper_cross(a: P, b: P, c: P, d: P) -> bool {
    orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0
}

/// The closed segments share at least one point.
pub fn seg_touch(a: P, b: P, c: P, d: P) -> bool {
    proper_cross(a, b, c, d)
        || on_segment(a, b, c)
        || on_segment(a, b, d)
        || on_segment(c, d, a)
        || on_segment(c, d, b)
}

/// The segments share more than one point (collinear overlap).
pub fn seg_overlap(a: P, b: P, c: P, d: P) -> bool {
    if orient(a, b, c) != 0 || orient(a, b, d) != 0 {
        return false;
    }
    let (lo1, hi1) = (a.min(b), a.max(b));
    let (lo2, hi2) = (c.min(d), c.max(d));
    lo1.max(lo2) < hi1.min(hi2)
}

/// Position of p against a simple polygon (any orientation): 1 inside, 0 boundary, -1 outside.
pub fn in_poly(poly: &[P], p: P) -> i32 {
    let n = poly.len();
    let mut inside = false;
    for i in 0..n {
        let a = poly[i];
        let b = poly[(i + 1) % n];
        if on_segment(a, b, p) {
            return 0;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
            if orient(lo, hi, p) > 0 {
                inside = !inside;
            }
        }
    }
    if inside { 1 } else { -1 }
}

pub fn scale(v: &[P], k: i64) -> Vec<P> {
    v.iter().map(|p| (p.0 * k, p.1 * k)).collect()
}

pub fn area2(poly: &[P]) -> i128 {
    let n = poly.len();
    (0..n)
        .map(|i| {
            let a = poly[i];
            let b = poly[(i + 1) % n];
            a.0 as i128 * b.1 as i128 - b.0 as i128 * a.1 as i128
        })
        .sum()
}

/// Simple polygon: no repeated vertex, edges meet only at shared end points.
/// Straight (180 degree) corners are allowed when `flat` is set.
pub fn simple(poly: &[P], flat: bool) -> bool {
    let n = poly.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        for j in 0..i {
            if poly[i] == poly[j] {
                return false;
            }
        }
    }
    for i in 0..n {
        let (a, b, c) = (poly[i], poly[(i + 1) % n], poly[(i + 2) % n]);
        if orient(a, b, c) == 0 {
            if !flat || dot(a, b, b, c) < 0 {
                return false;
            }
        }
        for j in i + 1..n {
            let (c, d) = (poly[j], poly[(j + 1) % n]);
            let adj = j == i + 1 || (i == 0 && j == n - 1);
            if adj {
                if seg_overlap(a, b, c, d) {
                    return false;
                }
            } else if seg_touch(a, b, c, d) {
                return false;
            }
        }
    }
    area2(poly) != 0
}

pub fn grid(w: i64, h: i64) -> Vec<P> {
    let mut v = Vec::new();
    for y in 0..h {
        for x in 0..w {
            v.push((x, y));
        }
    }
    v
}

/// All k-subsets of 0..n, lexicographic.
pub fn subsets(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if cur.len() == k {
            f(cur);
            return;
        }
        // enough have to be left
        for i in from..(n + 1 + cur.len()).saturating_sub(k) {
            cur.push(i);
            go(n, k, i + 1, cur, f);
            cur.pop();
        }
    }
    go(n, k, 0, &mut Vec::new(), f)
}

/// All simple counterclockwise polygons with exactly k corners on the given
/// points, each once (starting at its lowest-index point).
pub fn simple_polygons(pts: &[P], k: usize, flat: bool) -> Vec<Vec<P>> {
    let mut out = Vec::new();
    fn go(pts: &[P], k: usize, flat: bool, cur: &mut Vec<usize>, out: &mut Vec<Vec<P>>) {
        if cur.len() == k {
            let poly: Vec<P> = cur.iter().map(|&i| pts[i]).collect();
            if area2(&poly) > 0 && simple(&poly, flat) {
                out.push(poly);
            }
            return;
        }
        for i in cur[0] + 1..pts.len() {
            if cur.contains(&i) {
                continue;
            }
            // prune: the new edge must not touch earlier non-adjacent edges
            let m = cur.len();
            let (a, b) = (pts[cur[m - 1]], pts[i]);
            let mut ok = true;
            for j in 0..m - 1 {
                let (c, d) = (pts[cur[j]], pts[cur[j + 1]]);
                if j + 1 == m - 1 {
                    if seg_overlap(a, b, c, d) || (!flat && orient(c, d, b) == 0) {
                        ok = false;
                    }
                } else if seg_touch(a, b, c, d) {
                    ok = false;
                }
                if !ok {
                    break;
                }
            }
            if ok {
                cur.push(i);
                go(pts, k, flat, cur, out);
                cur.pop();
            }
        }
    }
    for s in 0..pts.len() {
        go(pts, k, flat, &mut vec![s], &mut out);
    }
    out
}

/// Convex hull, counterclockwise, without collinear points; fewer than 3 points when degenerate.
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut v = pts.to_vec();
    v.sort();
    v.dedup();
    if v.len() < 3 {
        return v;
    }
    let half = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = Vec::new();
        for p in it {
            while h.len() >= 2 && orient(h[h.len() - 2], h[h.len() - 1], p) <= 0 {
                h.pop();
            }
            h.push(p);
        }
        h.pop();
        h
    };
    let mut lo = half(&mut v.iter().copied());
    let up = half(&mut v.iter().rev().copied());
    lo.extend(up);
    lo
}

/// Rational number with exact comparison.
#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn f(self) -> f64 {
        self.n as f64 / self.d as f64
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.n * o.d == o.n * self.d
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some((self.n * o.d).cmp(&(o.n * self.d)))
    }
}

/// Exact intersection point of two properly or improperly crossing, non-parallel segments.
pub fn cross_point(a: P, b: P, c: P, d: P) -> Option<(Q, Q)> {
    let den = (b.0 - a.0) as i128 * (d.1 - c.1) as i128 - (b.1 - a.1) as i128 * (d.0 - c.0) as i128;
    if den == 0 {
        return None;
    }
    let t = (c.0 - a.0) as i128 * (d.1 - c.1) as i128 - (c.1 - a.1) as i128 * (d.0 - c.0) as i128;
    Some((
        Q::new(a.0 as i128 * den + t * (b.0 - a.0) as i128, den),
        Q::new(a.1 as i128 * den + t * (b.1 - a.1) as i128, den),
    ))
}
