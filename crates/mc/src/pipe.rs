//! Whole-pipeline properties: boundary, holes, segments, vertices, refinement.
use kit::dom::*;
use kit::engine::*;
use kit::fam::*;
use kit::frame::{Frame, CYCLE};
use kit::geo::*;
use kit::mesh::*;
use nlsn_delaunay::planar::triangulator::Triangulator;

type Emit<'a> = &'a mut dyn FnMut(Dom);
pub type Fam = fn(Tier, Emit);

/// A property judged on the (unrefined) mesh of every domain of its families.
pub struct MeshCheck {
    pub id: &'static str,
    pub bounds: fn(Tier) -> String,
    pub fam: Fam,
    pub judge: Judge,
}

fn frames(list: &[u8], d: Dom, f: Emit) {
    for &i in list {
        f(d.clone().frame(i));
    }
}
const FEW: [u8; 9] = [0, 1, 2, 6, 17, 20, 22, 23, 24];
const MANY: [u8; 25] = CYCLE;

pub fn judge_mesh(j: &Judge, d: &Dom, w: &Want, t: &Triangulator) -> Result<u64, String> {
    let m = extract(d.fr(), &t.triangulation.borrow())?;
    j.mesh(d, w, &m)?;
    Ok(fingerprint(&m))
}

impl Check for MeshCheck {
    type Case = Dom;
    fn id(&self) -> &'static str {
        self.id
    }
    fn bounds(&self, t: Tier) -> String {
        (self.bounds)(t)
    }
    fn enumerate(&self, t: Tier, emit: &mut dyn FnMut(Dom)) {
        (self.fam)(t, emit)
    }
    fn check(&self, d: &Dom, o: &mut Obs) -> Result<(), Bad<Dom>> {
        let w = d.want();
        d.explore(o, &mut |t| judge_mesh(&self.judge, d, &w, t))
    }
}

// ------------------------------------------------------------------ families per property

fn dev(policy: u32, depth: u32) -> Plan {
    Plan::Deviate { policy, depth }
}

pub fn fam_boundary(t: Tier, f: Emit) {
    for k in 3..=9 {
        boundaries(3, 3, k, true, true, &mut |d| frames(if t.deep() { &MANY } else { &FEW }, d.plan(Plan::Base(3)), f));
    }
    for k in 3..=t.pick(6, 8) {
        boundaries(4, 3, k, true, true, &mut |d| f(d));
    }
    for k in 3..=t.pick(5, 6) {
        boundaries(4, 4, k, true, t.deep(), &mut |d| f(d));
    }
    combs(t.pick(4, 5), 3, &mut |d| frames(&FEW, d.plan(Plan::Base(4)), f));
    for k in 3..=t.pick(5, 7) {
        boundaries(3, 3, k, false, false, &mut |d| f(d.plan(dev(0, 1))));
    }
    for k in 3..=t.pick(3, 4) {
        boundaries(3, 3, k, false, false, &mut |d| f(d.plan(dev(0, 2))));
    }
    circle_polys(t, f);
    deep(t, false, f);
    for n in 1..=t.pick(24, 60) {
        long_boundaries(n, &mut |d| f(d));
    }
    // long boundaries: a staircase and a saw
    for n in 3..=t.pick(8, 14) {
        let mut p = vec![];
        for i in 0..n {
            p.push((i, i));
            p.push((i + 1, i));
        }
        p.push((n, n + 1));
        p.push((0, n + 1));
        if simple(&p, true) {
            frames(&FEW, Dom::new(p).plan(Plan::Base(4)), f);
        }
    }
}

/// Holes (or boundaries and bays) several triangles deep.
fn deep(t: Tier, holes: bool, f: Emit) {
    for (levels, step) in [(1, 1), (2, 1), (3, t.pick(4, 1))] {
        let n = t.pick(if levels == 2 { 8 } else { 3 }, 8);
        tiered(levels, step, &mut |d| {
            if d.holes.is_empty() != holes {
                frames(if t.deep() || levels == 2 { &MANY } else { &FEW }, d.plan(Plan::Base(n)), f)
            }
        });
    }
}

/// convex polygons on integer points of one circle (every triangle ambiguous)
fn circle_polys(t: Tier, f: Emit) {
    let c = circle_points(25);
    let h = hull(&c);
    for k in 3..=t.pick(5, 12) {
        subsets(h.len(), k, &mut |ix| {
            let p: Vec<P> = ix.iter().map(|&i| h[i]).collect();
            f(Dom::new(p));
        });
    }
    f(Dom::new(h));
    f(Dom::new(hull(&circle_points(325))).plan(Plan::Base(4)));
}

pub fn fam_holes(t: Tier, f: Emit) {
    for k in 3..=t.pick(7, 9) {
        for flat in [false, true] {
            one_hole(3, 3, k, flat, &mut |d| frames(if k <= 4 || t.deep() { &FEW } else { &FEW[..1] }, d, f));
        }
    }
    for k in 3..=t.pick(4, 6) {
        one_hole(4, 3, k, false, f);
    }
    two_holes(4, 4, 3, 3, t.pick(40, 1), f);
    two_holes(4, 3, 3, 3, t.pick(4, 1), f);
    two_holes(4, 3, 3, 4, t.pick(10, 1), f);
    hole_in_poly(4, 4, 5, 3, t.pick(1, 1), f);
    hole_in_poly(5, 5, 4, 3, t.pick(100, 5), f);
    hole_in_poly(5, 4, 6, 3, t.pick(40, 2), f);
    plates(2, t.pick(2, 3), &mut |d| frames(&MANY, d.plan(Plan::Base(4)), f));
    if t.deep() {
        plates(3, 3, &mut |d| f(d));
    }
    // plates full of holes
    for m in 1..=t.pick(6, 9) {
        for n in 1..=m {
            let mut d = Dom::new(rect(3 * m + 1, 3 * n + 1));
            for i in 0..m * n {
                let (x, y) = (3 * (i % m) + 1, 3 * (i / m) + 1);
                let mut h = vec![(x, y), (x + 2, y), (x + 2, y + 2), (x, y + 2)];
                if i % 3 == 1 {
                    h.remove((i % 4) as usize);
                }
                d.holes.push(h);
            }
            f(d);
        }
    }
    one_hole(2, 2, 3, false, &mut |d| f(d.plan(dev(0, 1))));
    one_hole(2, 2, 4, false, &mut |d| f(d.plan(dev(0, 1))));
    if t.deep() {
        one_hole(3, 3, 4, false, &mut |d| f(d.plan(dev(0, 1))));
        one_hole(2, 2, 3, false, &mut |d| f(d.plan(dev(0, 2))));
    }
    deep(t, true, f);
    // thin holes along the axis of a strip: long sides crossing many edges
    for (n, h, steps) in [(4, 3, 2), (3, 1, 3), (5, 2, t.pick(1, 2))] {
        strips(n, h, steps, &mut |p, s| {
            let p: Vec<P> = scale(&p, 3);
            let (a, b, m) = ((4, 0), (3 * s.1 .0 - 4, 0), 3 * n as i64);
            for x in [m - 5, m, m + 5] {
                for tip in [(x, 1), (x, -1)] {
                    let h = vec![a, b, tip];
                    let h = if area2(&h) > 0 { h } else { vec![b, a, tip] };
                    f(Dom::new(p.clone()).hole(h.clone()).plan(Plan::Base(t.pick(1, 4))));
                }
                f(Dom::new(p.clone()).hole(vec![a, (x, -1), b, (m, 1)]));
            }
        });
    }
    // a hole following the boundary closely, in every frame
    for k in 3..=6 {
        boundaries(3, 3, k, false, false, &mut |d| {
            let h = scale(&d.outer, 1).iter().map(|p| (p.0 + 3, p.1 + 3)).collect();
            frames(&MANY, Dom::new(square(8)).hole(h), f);
        });
    }
}

fn any(_: Meet) -> bool {
    true
}

pub fn fam_segments(t: Tier, f: Emit) {
    segs_in_square(3, 3, 1, 1, &any, &mut |d| frames(&MANY, d.plan(Plan::Base(4)), f));
    segs_in_square(4, 4, 1, 1, &any, f);
    segs_in_square(3, 3, 2, 2, &any, &mut |d| {
        frames(&FEW, d.clone(), f);
        f(d.order(2));
    });
    segs_in_square(4, 3, 2, 2, &|m| m != Meet::Overlap, f);
    segs_in_square(3, 3, 3, 2, &|m| m == Meet::Disjoint || m == Meet::Touch, f);
    let mut c = 0usize;
    let stride = t.pick(7, 1);
    segs_in_square(3, 3, 3, 2, &any, &mut |d| {
        c += 1;
        if c % stride == 0 {
            f(d)
        }
    });
    seg_in_poly(4, 4, 5, t.pick(2, 1), f);
    seg_in_poly(4, 4, 6, t.pick(20, 1), f);
    seg_in_poly(5, 4, 4, t.pick(3, 1), f);
    seg_and_verts(3, 3, 1, f);
    seg_and_verts(3, 3, 2, f);
    seg_and_verts(4, 3, t.pick(1, 2), &mut |d| f(d.order(1)));
    stars(1, 2, t.pick(5, 8), f);
    stars(2, 2, t.pick(2, 4), f);
    mixed(3, 3, t.pick(5, 1), f);
    // long segments crossing many triangles: vertices on both sides
    for n in 3..=t.pick(6, 9) {
        let mut vs = vec![];
        for i in 1..n {
            vs.push((i, 1));
            vs.push((i, 3));
        }
        for (a, b) in [((1, 2), (n - 1, 2)), ((n - 1, 2), (1, 2))] {
            frames(&MANY, Dom::new(rect(n, 4)).segs(&[(a, b)]).verts(&vs).order(1), f);
        }
    }
    for n in 1..=t.pick(16, 40) {
        many_segments(n, &mut |d| f(d));
    }
    // strips: a segment along the axis crosses all the cross edges of the mesh
    for (n, h, steps) in [(4, 2, 2), (3, 1, 3), (5, t.pick(3, 2), 2), (t.pick(3, 4), 2, 3)] {
        strips(n, h, steps, &mut |p, s| {
            let (a, b) = ((s.0 .0 + 1, 0), (s.1 .0 - 1, 0));
            for r in [(a, b), (b, a)] {
                f(Dom::new(p.clone()).segs(&[r]).plan(Plan::Base(t.pick(1, 4))));
            }
        });
    }
    segs_in_square(2, 2, 1, 1, &any, &mut |d| f(d.plan(dev(0, 1))));
    segs_in_square(3, 2, 2, 2, &any, &mut |d| f(d.plan(dev(0, t.pick(1, 1)))));
    if t.deep() {
        segs_in_square(3, 3, 1, 1, &any, &mut |d| f(d.plan(dev(1, 1))));
        segs_in_square(2, 2, 1, 1, &any, &mut |d| f(d.plan(dev(0, 2))));
        segs_in_square(4, 4, 2, 2, &|m| m != Meet::Overlap, f);
        segs_in_square(3, 3, 4, 2, &|m| m == Meet::Disjoint || m == Meet::Touch, f);
    }
}

pub fn fam_vertices(t: Tier, f: Emit) {
    for k in 1..=t.pick(5, 9) {
        let g = inner(3, 3);
        subsets(9, k, &mut |ix| {
            let vs: Vec<P> = ix.iter().map(|&i| g[i]).collect();
            let d = Dom::new(square(4)).verts(&vs);
            frames(&FEW, d.clone(), f);
            f(d.clone().order(2));
        });
    }
    for k in 1..=t.pick(3, 5) {
        let g = inner(4, 4);
        subsets(16, k, &mut |ix| {
            let vs: Vec<P> = ix.iter().map(|&i| g[i]).collect();
            f(Dom::new(square(5)).verts(&vs));
        });
    }
    verts_in_poly(4, 4, 4, 2, t.pick(1, 1), f);
    verts_in_poly(4, 4, 5, 2, t.pick(2, 1), f);
    verts_in_poly(4, 4, 6, 1, t.pick(10, 1), f);
    verts_in_poly(5, 5, 4, 3, t.pick(60, 4), f);
    verts_in_poly(5, 4, 6, 2, t.pick(60, 4), f);
    seg_and_verts(3, 3, 2, f);
    seg_and_verts(3, 3, 1, &mut |d| {
        frames(&FEW, d.clone(), f);
        f(d.clone().order(1));
        f(d.order(2));
    });
    mixed(3, 3, t.pick(7, 1), f);
    mixed(3, 3, t.pick(11, 1), &mut |d| f(d.order(1)));
    // cocircular vertices inside a big square, every subset of the circle
    let c: Vec<P> = circle_points(25).iter().map(|p| (p.0 + 6, p.1 + 6)).collect();
    for k in 1..=t.pick(3, 6) {
        subsets(c.len(), k, &mut |ix| {
            let vs: Vec<P> = ix.iter().map(|&i| c[i]).collect();
            f(Dom::new(square(12)).verts(&vs));
        });
    }
    frames(&MANY, Dom::new(square(12)).verts(&c), f);
    // full lattices
    for n in 2..=t.pick(5, 8) {
        frames(&MANY, Dom::new(square(n + 1)).verts(&inner(n, n)).plan(Plan::Base(6)), f);
    }
    for n in 6..=t.pick(12, 20) {
        f(Dom::new(square(n + 1)).verts(&inner(n, n)));
        f(Dom::new(rect(n * n + 1, 4)).verts(&inner(n * n, 2)));
        f(Dom::new(rect(n * n + 1, n + 1)).verts(&(1..=n * n).map(|i| (i, 1 + i * 5 % n)).collect::<Vec<P>>()));
    }
    for k in 1..=2 {
        let g = inner(2, 2);
        subsets(4, k, &mut |ix| {
            let vs: Vec<P> = ix.iter().map(|&i| g[i]).collect();
            f(Dom::new(square(3)).verts(&vs).plan(dev(0, 1)));
            if t.deep() {
                f(Dom::new(square(3)).verts(&vs).plan(dev(0, 2)));
            }
        });
    }
    if t.deep() {
        let g = inner(3, 3);
        subsets(9, 3, &mut |ix| {
            let vs: Vec<P> = ix.iter().map(|&i| g[i]).collect();
            f(Dom::new(square(4)).verts(&vs).plan(dev(0, 1)));
        });
    }
}

fn thin(stride: usize, fam: Fam, t: Tier, f: Emit) {
    let mut n = 0usize;
    fam(t, &mut |d| {
        n += 1;
        let small = matches!(d.plan, Plan::Base(_));
        if !small || n % stride == 0 {
            f(d)
        }
    });
}

/// The union of the four families (thinned evenly in the quick tier).
pub fn fam_all(t: Tier, f: Emit) {
    let s = t.pick(3, 1);
    thin(s, fam_boundary, t, f);
    thin(s, fam_holes, t, f);
    thin(s, fam_segments, t, f);
    thin(s, fam_vertices, t, f);
}

pub fn checks() -> Vec<MeshCheck> {
    vec![
        MeshCheck {
            id: "C01",
            bounds: |t| format!("simple polygons (straight corners allowed) with every start vertex: 3x3 grid k<=9 in {} frames, 4x3 k<={}, 4x4 k<={}; combs, staircases, cocircular polygons, combs, staircases and winding corridors of every size up to {}; every schedule with <=1 deviation for 3x3 k<={}, <=2 for k<={}", t.pick(9, 25), t.pick(6, 8), t.pick(5, 6), t.pick(24, 60), t.pick(5, 7), t.pick(3, 4)),
            fam: fam_boundary,
            judge: Judge { covers: true, pieces: true, ..Judge::default() },
        },
        MeshCheck {
            id: "C02",
            bounds: |t| format!("squares with every polygonal hole on a 3x3 interior grid k<={}, 4x3 k<={}, pairs of holes, thin holes along strips, holes in every polygon with 4..6 corners on up to 5x5 grids, plates with every subset of holes, plates with up to {}x{} holes; every schedule with <=1 deviation for holes on a 2x2 grid", t.pick(7, 9), t.pick(4, 6), t.pick(6, 9), t.pick(6, 9)),
            fam: fam_holes,
            judge: Judge { covers: true, pieces: true, ..Judge::default() },
        },
        MeshCheck {
            id: "C03",
            bounds: |t| format!("1..{} segments (disjoint, touching, crossing, overlapping) on 3x3 and 4x4 interior grids, segments in every polygon with 4..6 corners, segments with vertices, stars of up to {} spokes, segments along the axis of every strip of 3..5 columns, up to {} parallel and 7x7 crossing segments; every schedule with <=1 deviation for one segment on 2x2 and two on 3x2", t.pick(3, 4), t.pick(5, 8), t.pick(16, 40)),
            fam: fam_segments,
            judge: Judge { covers: true, pieces: true, ..Judge::default() },
        },
        MeshCheck {
            id: "C04",
            bounds: |t| format!("every set of <={} vertices on 3x3 and <={} on 4x4 interior grids, in every polygon with 4..6 corners, with a segment, with a hole; cocircular sets; lattices and scattered vertices up to {}x{}; every schedule with <=1 deviation for <=2 vertices", t.pick(5, 9), t.pick(3, 5), t.pick(12, 20), t.pick(12, 20)),
            fam: fam_vertices,
            judge: Judge { covers: true, vertices: true, ..Judge::default() },
        },
        MeshCheck {
            id: "C05",
            bounds: |t| format!("union of the boundary, hole, segment and vertex families{}", t.pick(", every third domain", "")),
            fam: fam_all,
            judge: Judge { covers: true, delaunay: true, pieces: true, ..Judge::default() },
        },
        MeshCheck {
            id: "C06",
            bounds: |t| format!("union of the boundary, hole, segment and vertex families{}", t.pick(", every third domain", "")),
            fam: fam_all,
            judge: Judge { ghosts: true, ..Judge::default() },
        },
    ]
}

#[allow(dead_code)]
fn unused(_: Frame) {}
