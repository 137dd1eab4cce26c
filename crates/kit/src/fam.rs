//! Families of domains, each a finite space enumerated completely.
use crate::dom::*;
use crate::geo::*;

pub fn square(n: i64) -> Vec<P> {
    vec![(0, 0), (n, 0), (n, n), (0, n)]
}
/// interior grid of `square(n)`: (1..n)^2
pub fn inner(w: i64, h: i64) -> Vec<P> {
    grid(w, h).iter().map(|p| (p.0 + 1, p.1 + 1)).collect()
}
pub fn rect(w: i64, h: i64) -> Vec<P> {
    vec![(0, 0), (w, 0), (w, h), (0, h)]
}

pub fn segments(g: &[P]) -> Vec<(P, P)> {
    let mut v = vec![];
    for i in 0..g.len() {
        for j in 0..i {
            v.push((g[j], g[i]));
        }
    }
    v
}

/// b strictly inside a, boundaries disjoint
pub fn strictly_inside(a: &[P], b: &[P]) -> bool {
    b.iter().all(|&p| in_poly(a, p) > 0)
        && ring(a).iter().all(|&(p, q)| ring(b).iter().all(|&(r, s)| !seg_touch(p, q, r, s)))
}
pub fn apart(a: &[P], b: &[P]) -> bool {
    in_poly(a, b[0]) < 0
        && in_poly(b, a[0]) < 0
        && ring(a).iter().all(|&(p, q)| ring(b).iter().all(|&(r, s)| !seg_touch(p, q, r, s)))
}
pub fn seg_free(poly: &[P], s: (P, P), inside: bool) -> bool {
    let w = if inside { 1 } else { -1 };
    in_poly(poly, s.0) == w
        && in_poly(poly, s.1) == w
        && ring(poly).iter().all(|&(p, q)| !seg_touch(p, q, s.0, s.1))
}

/// Every simple polygon with k corners on a w x h grid, every start vertex.
pub fn boundaries(w: i64, h: i64, k: usize, flat: bool, all_starts: bool, f: &mut dyn FnMut(Dom)) {
    for p in simple_polygons(&grid(w, h), k, flat) {
        for r in 0..if all_starts { k } else { 1 } {
            let mut q = p.clone();
            q.rotate_left(r);
            f(Dom::new(q));
        }
    }
}

/// A square with one polygonal hole on its w x h interior grid.
pub fn one_hole(w: i64, h: i64, k: usize, flat: bool, f: &mut dyn FnMut(Dom)) {
    for p in simple_polygons(&inner(w, h), k, flat) {
        f(Dom::new(rect(w + 1, h + 1)).hole(p));
    }
}

/// A square with two disjoint holes; `stride` thins the product evenly (1 = all).
pub fn two_holes(w: i64, h: i64, k1: usize, k2: usize, stride: usize, f: &mut dyn FnMut(Dom)) {
    let a = simple_polygons(&inner(w, h), k1, false);
    let b = simple_polygons(&inner(w, h), k2, false);
    let mut n = 0usize;
    for x in &a {
        for y in &b {
            if apart(x, y) {
                n += 1;
                if n % stride == 0 {
                    f(Dom::new(rect(w + 1, h + 1)).hole(x.clone()).hole(y.clone()));
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Meet {
    Disjoint,
    Touch,
    Cross,
    Overlap,
}

pub fn meeting(s: (P, P), t: (P, P)) -> Meet {
    if seg_overlap(s.0, s.1, t.0, t.1) {
        Meet::Overlap
    } else if proper_cross(s.0, s.1, t.0, t.1) {
        Meet::Cross
    } else if seg_touch(s.0, s.1, t.0, t.1) {
        Meet::Touch
    } else {
        Meet::Disjoint
    }
}

/// k segment constraints in a square; the grid is multiplied by `unit`, so that
/// crossing points can be grid points; sets with a crossing off the grid are
/// left out. `meet` selects the worst relation allowed between two segments.
pub fn segs_in_square(w: i64, h: i64, k: usize, unit: i64, allow: &dyn Fn(Meet) -> bool, f: &mut dyn FnMut(Dom)) {
    let ss: Vec<(P, P)> = segments(&inner(w, h))
        .into_iter()
        .map(|(a, b)| ((a.0 * unit, a.1 * unit), (b.0 * unit, b.1 * unit)))
        .collect();
    let out = scale(&rect(w + 1, h + 1), unit);
    subsets(ss.len(), k, &mut |ix| {
        let c: Vec<(P, P)> = ix.iter().map(|&i| ss[i]).collect();
        if !segs_ok(&c, allow) {
            return;
        }
        f(Dom::new(out.clone()).segs(&c));
    });
}

pub fn segs_ok(c: &[(P, P)], allow: &dyn Fn(Meet) -> bool) -> bool {
    for i in 0..c.len() {
        for j in 0..i {
            let m = meeting(c[i], c[j]);
            if !allow(m) {
                return false;
            }
            if m == Meet::Cross {
                let (x, y) = cross_point(c[i].0, c[i].1, c[j].0, c[j].1).unwrap();
                if x.d != 1 || y.d != 1 {
                    return false;
                }
            }
        }
    }
    true
}

/// One segment and every k-subset of vertices on the interior grid of a square.
pub fn seg_and_verts(w: i64, h: i64, k: usize, f: &mut dyn FnMut(Dom)) {
    let g = inner(w, h);
    for s in segments(&g) {
        subsets(g.len(), k, &mut |ix| {
            let vs: Vec<P> = ix.iter().map(|&i| g[i]).collect();
            f(Dom::new(rect(w + 1, h + 1)).segs(&[s]).verts(&vs));
        });
    }
}

/// Every k-subset of interior grid points of every simple polygon with n corners.
pub fn verts_in_poly(w: i64, h: i64, n: usize, k: usize, stride: usize, f: &mut dyn FnMut(Dom)) {
    let g = grid(w, h);
    let mut c = 0usize;
    for q in simple_polygons(&g, n, false) {
        let ins: Vec<P> = g.iter().copied().filter(|&p| in_poly(&q, p) > 0).collect();
        if ins.len() < k {
            continue;
        }
        subsets(ins.len(), k, &mut |ix| {
            c += 1;
            if c % stride == 0 {
                let vs: Vec<P> = ix.iter().map(|&i| ins[i]).collect();
                f(Dom::new(q.clone()).verts(&vs));
            }
        });
    }
}

/// Every polygon with n corners and every hole with k corners strictly inside it.
pub fn hole_in_poly(w: i64, h: i64, n: usize, k: usize, stride: usize, f: &mut dyn FnMut(Dom)) {
    let g = grid(w, h);
    let hs = simple_polygons(&g, k, false);
    let mut c = 0usize;
    for q in simple_polygons(&g, n, false) {
        for x in &hs {
            if strictly_inside(&q, x) {
                c += 1;
                if c % stride == 0 {
                    f(Dom::new(q.clone()).hole(x.clone()));
                }
            }
        }
    }
}

/// Every polygon with n corners and every segment strictly inside it.
pub fn seg_in_poly(w: i64, h: i64, n: usize, stride: usize, f: &mut dyn FnMut(Dom)) {
    let g = grid(w, h);
    let mut c = 0usize;
    for q in simple_polygons(&g, n, false) {
        for s in segments(&g) {
            if seg_free(&q, s, true) {
                c += 1;
                if c % stride == 0 {
                    f(Dom::new(q.clone()).segs(&[s]));
                }
            }
        }
    }
}

/// Square with a hole (3 or 4 corners), one segment and one vertex.
pub fn mixed(w: i64, h: i64, stride: usize, f: &mut dyn FnMut(Dom)) {
    let g = inner(w, h);
    let mut c = 0usize;
    for k in 3..5 {
        for x in simple_polygons(&g, k, false) {
            for s in segments(&g) {
                if !seg_free(&x, s, false) {
                    continue;
                }
                for &p in &g {
                    if in_poly(&x, p) >= 0 {
                        continue;
                    }
                    c += 1;
                    if c % stride == 0 {
                        f(Dom::new(rect(w + 1, h + 1)).hole(x.clone()).segs(&[s]).verts(&[p]));
                    }
                }
            }
        }
    }
}

/// A plate with every subset of an m x n array of square holes.
pub fn plates(m: i64, n: i64, f: &mut dyn FnMut(Dom)) {
    for bits in 0u32..1 << (m * n) {
        let mut d = Dom::new(rect(3 * m + 1, 3 * n + 1));
        for i in 0..m * n {
            if bits >> i & 1 == 1 {
                let (x, y) = (3 * (i % m) + 1, 3 * (i / m) + 1);
                d.holes.push(vec![(x, y), (x + 2, y), (x + 2, y + 2), (x, y + 2)]);
            }
        }
        f(d);
    }
}

/// Comb-shaped boundaries with `teeth` teeth whose heights range over 1..=hmax.
pub fn combs(teeth: usize, hmax: i64, f: &mut dyn FnMut(Dom)) {
    let n = (hmax as usize).pow(teeth as u32);
    for code in 0..n {
        let mut c = code;
        let mut p: Vec<P> = vec![(0, 0), (2 * teeth as i64 - 1, 0)];
        for t in (0..teeth).rev() {
            let hgt = 1 + (c % hmax as usize) as i64 + 1;
            c /= hmax as usize;
            let x = 2 * t as i64;
            p.push((x + 1, hgt));
            p.push((x, hgt));
            if t > 0 {
                p.push((x, 1));
                p.push((x - 1, 1));
            }
        }
        f(Dom::new(p));
    }
}

/// Stars: segments from a common centre to every subset of `k` rim points of a
/// square of half-size r.
pub fn stars(r: i64, kmin: usize, kmax: usize, f: &mut dyn FnMut(Dom)) {
    let c = (r + 1, r + 1);
    let mut rim = vec![];
    for p in grid(2 * r + 1, 2 * r + 1) {
        let q = (p.0 + 1, p.1 + 1);
        if (q.0 - c.0).abs().max((q.1 - c.1).abs()) == r {
            rim.push(q);
        }
    }
    for k in kmin..=kmax {
        subsets(rim.len(), k, &mut |ix| {
            let s: Vec<(P, P)> =
                ix.iter().map(|&i| if i % 2 == 0 { (c, rim[i]) } else { (rim[i], c) }).collect();
            f(Dom::new(square(2 * r + 2)).segs(&s));
        });
    }
}

/// Integer points on the circle of radius^2 = r2 around the origin.
pub fn circle_points(r2: i64) -> Vec<P> {
    let r = (r2 as f64).sqrt() as i64 + 1;
    let mut v = vec![];
    for x in -r..=r {
        for y in -r..=r {
            if x * x + y * y == r2 {
                v.push((x, y));
            }
        }
    }
    v
}

/// A convex polygon with 3 * 2^levels corners close to a circle, whose Delaunay
/// triangulation is a tree of triangles `levels` deep around a middle one: the
/// later a corner comes in the subdivision, the farther out it lies.
pub fn tiers(levels: u32) -> Vec<P> {
    let n = 3usize << levels;
    (0..n)
        .map(|i| {
            let tier = if i == 0 { 0 } else { levels - (i.trailing_zeros()).min(levels) };
            let r = 2000.0 + 3.0 * tier as f64;
            let a = 2.0 * std::f64::consts::PI * (i as f64 + 0.25) / n as f64;
            ((r * a.cos()).round() as i64, (r * a.sin()).round() as i64)
        })
        .collect()
}

/// Tiered holes, tiered boundaries and boundaries with a tiered bay (entered by
/// each of its sides).
pub fn tiered(levels: u32, step: usize, f: &mut dyn FnMut(Dom)) {
    let p = tiers(levels);
    let n = p.len();
    let w = 2500;
    for k in (0..n).step_by(step) {
        let mut q = p.clone();
        q.rotate_left(k);
        f(Dom::new(q.clone()));
        f(Dom::new(vec![(-w, -w), (w, -w), (w, w), (-w, w)]).hole(q.clone()));
        // clockwise from the last corner to the first: the side between them is open
        let (a, b) = (q[n - 1], q[0]);
        let d = (a.0 + b.0, a.1 + b.1);
        let out = |c: P| (c.0 + d.0 / 8, c.1 + d.1 / 8);
        let mut v: Vec<P> = q.iter().rev().cloned().collect();
        let c = [(w, w), (-w, w), (-w, -w), (w, -w)];
        // the corner of the square after the bay, going counterclockwise
        let ang = |p: P| (p.1 as f64).atan2(p.0 as f64);
        let m = ang(d);
        let mut cs: Vec<(f64, P)> = c
            .iter()
            .map(|&p| {
                let mut t = ang(p) - m;
                while t <= 0.0 {
                    t += 2.0 * std::f64::consts::PI;
                }
                (t, p)
            })
            .collect();
        cs.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
        // ... bay, then its mouth's left lip, then the square's corners
        let (l, r) = (out(b), out(a));
        let mut poly = vec![];
        poly.push(r);
        poly.append(&mut v.split_off(0));
        poly.push(l);
        poly.extend(cs.iter().map(|x| x.1).filter(|&p| p != l && p != r));
        let poly = if area2(&poly) > 0 { poly } else { poly.into_iter().rev().collect() };
        if simple(&poly, true) {
            f(Dom::new(poly));
        }
    }
}

/// Strips of `n` columns with corners at heights `h..h+steps` above and below
/// the axis, for every choice of the heights; a segment along the axis crosses most
/// of the strip's cross edges.
pub fn strips(n: usize, h: i64, steps: i64, f: &mut dyn FnMut(Vec<P>, (P, P))) {
    let total = (steps as usize).pow(2 * n as u32);
    for code in 0..total {
        let mut c = code;
        let mut digit = || {
            let d = (c % steps as usize) as i64;
            c /= steps as usize;
            d
        };
        let up: Vec<P> = (0..n).map(|i| (2 * i as i64 + 1, h + digit())).collect();
        let down: Vec<P> = (0..n).map(|i| (2 * i as i64 + 1, -h - digit())).collect();
        let (a, b) = ((0, 0), (2 * n as i64, 0));
        let mut p = vec![a];
        p.extend(down);
        p.push(b);
        p.extend(up.into_iter().rev());
        f(p, (a, b));
    }
}

/// Boundaries of growing size: combs, staircases and spirals.
pub fn long_boundaries(n: i64, f: &mut dyn FnMut(Dom)) {
    let mut comb: Vec<P> = vec![(0, 0), (2 * n - 1, 0)];
    for t in (0..n).rev() {
        let (x, h) = (2 * t, 3 + t * 7 % 5);
        comb.extend([(x + 1, h), (x, h)]);
        if t > 0 {
            comb.extend([(x, 1), (x - 1, 1)]);
        }
    }
    f(Dom::new(comb));
    let mut stairs = vec![];
    for i in 0..n {
        stairs.extend([(i, i), (i + 1, i)]);
    }
    stairs.extend([(n, n + 1), (0, n + 1)]);
    f(Dom::new(stairs));
    // a corridor winding around itself
    let (mut out, mut back) = (vec![], vec![]);
    for i in 0..n {
        let r = 2 * (i / 4) + 2;
        let c = [(r, -r), (r, r), (-r, r), (-r, -r - 2)][(i % 4) as usize];
        let d = [(r + 1, -r - 1), (r + 1, r + 1), (-r - 1, r + 1), (-r - 1, -r - 3)][(i % 4) as usize];
        out.push(d);
        back.push(c);
    }
    back.reverse();
    out.extend(back);
    if simple(&out, true) {
        f(Dom::new(if area2(&out) > 0 { out } else { out.into_iter().rev().collect() }));
    }
}

/// Growing numbers of segments: parallel ones, and grids of crossing ones.
pub fn many_segments(n: i64, f: &mut dyn FnMut(Dom)) {
    let rows: Vec<(P, P)> = (1..=n).map(|i| ((1 + i % 3, i), (n + 4 - i % 2, i))).collect();
    f(Dom::new(rect(n + 5, n + 1)).segs(&rows));
    let m = (n / 2).min(7).max(1);
    let mut grid: Vec<(P, P)> = (1..=m).map(|i| ((1, 2 * i), (2 * m + 1, 2 * i))).collect();
    grid.extend((1..=m).map(|i| ((2 * i, 1), (2 * i, 2 * m + 1))));
    f(Dom::new(rect(2 * m + 2, 2 * m + 2)).segs(&grid));
}
