//! Polygon location, relation, Boolean operations, splitting and arranging.
use kit::ensure;
use kit::fnc::FnCheck;
use crate::pred::{FEW, TEN};
use kit::dom::{fingerprint, Plan};
use kit::engine::*;
use kit::frame::*;
use kit::geo::*;
use kit::sched::*;
use kit::HashSet;
use nlsn_delaunay::elements::{edge::Edge, polyline::*, triangle::Triangle, vertex::Vertex};
use nlsn_delaunay::properties::continence::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type F = (f64, f64);

// ------------------------------------------------------------------ C24 location

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Loc {
    frame: u8,
    poly: Vec<P>,
    /// query points: the lattice that is `fine` times finer, one unit around the polygon
    fine: i64,
    /// the vertex whose x is the next representable number up or down
    #[serde(default, skip_serializing_if = "Option::is_none")]
    nudge: Option<(usize, bool)>,
}

fn loc_check(c: &Loc, o: &mut Obs) -> Result<(), String> {
    let f = at(c.frame);
    let fr = Frame { exp: f.exp - (c.fine as f64).log2() as i32, ..*f };
    let p = scale(&c.poly, c.fine);
    let mut pl = Frame { neg: false, ..fr }.poly(&p);
    if let Some((i, up)) = c.nudge {
        let mut vs: Vec<Rc<Vertex>> = p.iter().map(|&q| Frame { neg: false, ..fr }.v(q)).collect();
        let x = vs[i].x;
        let x = if x == 0.0 { x } else if up { x.next_up() } else { x.next_down() };
        vs[i] = Rc::new(Vertex::new(x, vs[i].y));
        pl = Rc::new(Polyline::new_closed(vs).ok_or("no polyline")?);
    }
    let open = fr.open(&p);
    let (lo, hi) = bounds(&p);
    for y in lo.1 - 1..=hi.1 + 1 {
        for x in lo.0 - 1..=hi.0 + 1 {
            let want = in_poly(&p, (x, y));
            let got = match pl.contains(&fr.v((x, y))) {
                Some(Continence::Inside) => 1,
                Some(Continence::Boundary) => 0,
                Some(Continence::Outside) => -1,
                None => return Err("a closed polyline cannot locate a vertex".into()),
            };
            ensure!(got == want, "{:?} against {:?} is {} instead of {}", (x, y), p, got, want);
            o.state(&(p.len(), want, x, y, c.frame));
            o.runs += 1;
            o.trans += 1;
        }
    }
    ensure!(open.contains(&fr.v(p[0])).is_none(), "an opened polyline locates a vertex");
    Ok(())
}

fn bounds(p: &[P]) -> (P, P) {
    let xs = p.iter().map(|q| q.0);
    let ys = p.iter().map(|q| q.1);
    ((xs.clone().min().unwrap(), ys.clone().min().unwrap()), (xs.max().unwrap(), ys.max().unwrap()))
}

fn loc_gen(t: Tier, f: &mut dyn FnMut(Loc)) {
    let mut go = |polys: Vec<Vec<P>>, frames: &[u8], fine: i64, starts: bool| {
        for p in polys {
            for cw in [false, true] {
                for s in 0..if starts { p.len() } else { 1 } {
                    let mut q = p.clone();
                    if cw {
                        q.reverse();
                    }
                    q.rotate_left(s);
                    for &frame in frames {
                        f(Loc { frame, poly: q.clone(), fine, nudge: None });
                        // a vertical side off by the last digit
                        if frame == 0 || frame == 17 {
                            for i in (0..q.len()).filter(|&i| q[i].0 == q[(i + 1) % q.len()].0 || q[i].0 == q[(i + q.len() - 1) % q.len()].0) {
                                for up in [false, true] {
                                    f(Loc { frame, poly: q.clone(), fine, nudge: Some((i, up)) });
                                }
                            }
                        }
                    }
                }
            }
        }
    };
    for k in 3..=9 {
        go(simple_polygons(&grid(3, 3), k, true), if k < 7 || t.deep() { &TEN } else { &FEW }, 2, k < 7 || t.deep());
    }
    for k in 3..=t.pick(6, 8) {
        go(simple_polygons(&grid(4, 3), k, true), &FEW, 2, k < 5 || t.deep());
    }
    for k in 3..=t.pick(4, 6) {
        go(simple_polygons(&grid(4, 4), k, true), &[0], 2, false);
    }
    go(simple_polygons(&grid(3, 3), 4, true), &FEW, 4, true);
    if t.deep() {
        go(simple_polygons(&grid(5, 5), 4, true), &FEW, 2, false);
        go(simple_polygons(&grid(4, 3), 5, true), &FEW, 4, true);
    }
}

// ------------------------------------------------------------------ C25 relation

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Rel {
    frame: u8,
    a: Vec<P>,
    b: Vec<P>,
    open: bool,
}

/// Parameters in [0, 1] along a-b at which it meets segment c-d.
pub fn params(a: P, b: P, c: P, d: P, out: &mut Vec<Q>) {
    let den = (b.0 - a.0) as i128 * (d.1 - c.1) as i128 - (b.1 - a.1) as i128 * (d.0 - c.0) as i128;
    if den == 0 {
        for p in [c, d] {
            if on_segment(a, b, p) && a != b {
                out.push(Q::new(dot(a, p, a, b), dist2(a, b)));
            }
        }
        return;
    }
    let t = Q::new((c.0 - a.0) as i128 * (d.1 - c.1) as i128 - (c.1 - a.1) as i128 * (d.0 - c.0) as i128, den);
    let u = Q::new((c.0 - a.0) as i128 * (b.1 - a.1) as i128 - (c.1 - a.1) as i128 * (b.0 - a.0) as i128, den);
    let (z, one) = (Q::new(0, 1), Q::new(1, 1));
    if t >= z && t <= one && u >= z && u <= one {
        out.push(t);
    }
}

/// (inside, outside, touching) of the curve b against the polygon a
pub fn relation(a: &[P], b: &[P], open: bool) -> (bool, bool, bool) {
    let mut r = (false, false, false);
    let n = b.len();
    for i in 0..if open { n - 1 } else { n } {
        let (p, q) = (b[i], b[(i + 1) % n]);
        let mut ts = vec![];
        for j in 0..a.len() {
            params(p, q, a[j], a[(j + 1) % a.len()], &mut ts);
        }
        if !ts.is_empty() {
            r.2 = true;
        }
        ts.push(Q::new(0, 1));
        ts.push(Q::new(1, 1));
        ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for w in ts.windows(2) {
            if w[0] == w[1] {
                continue;
            }
            let m = Q::new(w[0].n * w[1].d + w[1].n * w[0].d, 2 * w[0].d * w[1].d);
            let k = m.d as i64;
            let pt = (p.0 * k + m.n as i64 * (q.0 - p.0), p.1 * k + m.n as i64 * (q.1 - p.1));
            match in_poly(&scale(a, k), pt) {
                1 => r.0 = true,
                -1 => r.1 = true,
                _ => r.2 = true,
            }
        }
    }
    r
}

fn rel_check(c: &Rel, o: &mut Obs) -> Result<(), String> {
    let f = at(c.frame);
    let plain = Frame { neg: false, ..*f };
    let r = relation(&c.a, &c.b, c.open);
    let want = match r {
        (true, true, _) => None,
        (true, false, t) => Some((1, t)),
        (false, true, t) => Some((-1, t)),
        (false, false, _) => Some((0, true)),
    };
    let b = if c.open { f.open(&c.b) } else { f.poly(&c.b) };
    let got = Polyline::continence(&plain.poly(&c.a), &b).map(|(x, y)| {
        (
            match x {
                Continence::Inside => 1,
                Continence::Outside => -1,
                Continence::Boundary => 0,
            },
            y == BoundaryInclusion::Closed,
        )
    });
    o.runs += 1;
    o.trans += (c.a.len() * c.b.len()) as u64;
    o.state(&(c.frame, r, c.open, fingerprint(&(&c.a, &c.b))));
    ensure!(got == want, "{:?} against {:?} (opened {}) is {:?} instead of {:?}", c.b, c.a, c.open, got, want);
    ensure!(Polyline::continence(&f.open(&c.a), &b).is_none(), "an opened polyline relates to another");
    Ok(())
}

fn rel_gen(t: Tier, f: &mut dyn FnMut(Rel)) {
    let mut f = |mut c: Rel| {
        c.frame = fit(c.frame, &c.a, &c.b, c.open);
        f(c)
    };
    // segments on the doubled lattice against every small polygon
    let mut n = 0usize;
    for k in 3..=t.pick(7, 9) {
        for a in simple_polygons(&grid(3, 3), k, true) {
            let a: Vec<P> = scale(&a, 2).iter().map(|p| (p.0 + 1, p.1 + 1)).collect();
            let g = grid(7, 7);
            for i in 0..g.len() {
                for j in 0..g.len() {
                    if i == j {
                        continue;
                    }
                    n += 1;
                    let stride = if k <= 4 { t.pick(5, 1) } else { t.pick(k * k * 2, 2) };
                    if n % stride != 0 {
                        continue;
                    }
                    let frames: &[u8] = if n % 7 == 0 { &TEN } else { &[0] };
                    for &frame in frames {
                        f(Rel { frame, a: a.clone(), b: vec![g[i], g[j]], open: true });
                    }
                }
            }
        }
    }
    // opened polylines with three vertices and polygons, over shifted copies
    let small: Vec<Vec<P>> = (3..=4).flat_map(|k| simple_polygons(&grid(3, 3), k, true)).collect();
    let mut cnt = 0usize;
    let stride = t.pick(17, 1);
    for a in (3..=6).flat_map(|k| simple_polygons(&grid(3, 3), k, true)) {
        for s in [1, 2] {
            for dx in -1..=2 {
                for dy in -1..=2 {
                    for b in &small {
                        cnt += 1;
                        if cnt % stride != 0 {
                            continue;
                        }
                        // one of the two is doubled, so that vertices meet the middle of sides
                        let (x, y) = if s == 1 { (scale(&a, 2), b.clone()) } else { (a.clone(), scale(b, 2)) };
                        let y: Vec<P> = y.iter().map(|p| (p.0 + dx, p.1 + dy)).collect();
                        f(Rel { frame: cyc((cnt / stride) as usize), a: x.clone(), b: y.clone(), open: false });
                        f(Rel { frame: cyc((cnt / stride) as usize), a: x, b: y, open: true });
                    }
                }
            }
        }
    }
    for a in simple_polygons(&grid(4, 4), 4, false).iter().step_by(t.pick(5, 1)) {
        for b in simple_polygons(&grid(4, 4), 3, false).iter().step_by(t.pick(7, 1)) {
            f(Rel { frame: 0, a: a.clone(), b: b.clone(), open: false });
            f(Rel { frame: 6, a: b.clone(), b: a.clone(), open: false });
        }
    }
}

// ------------------------------------------------------------------ C41 meeting points

fn meet_check(c: &Rel, o: &mut Obs) -> Result<(), String> {
    let f = at(c.frame);
    let b = if c.open { f.open(&c.b) } else { f.poly(&c.b) };
    let nb = if c.open { c.b.len() - 1 } else { c.b.len() };
    for opened in [false, true] {
        let (a, na) = if opened { (f.open(&c.a), c.a.len() - 1) } else { (f.poly(&c.a), c.a.len()) };
        // the common part of every two sides, from one end to the other
        let mut parts: Vec<(F, F)> = vec![];
        for i in 0..na {
            for j in 0..nb {
                let (p, q) = (c.a[i], c.a[(i + 1) % c.a.len()]);
                let (r, s) = (c.b[j], c.b[(j + 1) % c.b.len()]);
                let mut ts = vec![];
                params(p, q, r, s, &mut ts);
                for e in [p, q] {
                    if on_segment(r, s, e) {
                        ts.push(Q::new(if e == p { 0 } else { 1 }, 1));
                    }
                }
                if ts.is_empty() {
                    continue;
                }
                ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
                let at = |t: &Q| (p.0 as f64 + t.f() * (q.0 - p.0) as f64, p.1 as f64 + t.f() * (q.1 - p.1) as f64);
                parts.push((at(&ts[0]), at(ts.last().unwrap())));
            }
        }
        for swap in [false, true] {
            let got = if swap { Polyline::intersection_vertices(&b, &a) } else { Polyline::intersection_vertices(&a, &b) };
            let got: Vec<F> = got.iter().map(|v| f.back(v.x, v.y)).collect();
            let on = |(p, q): &(F, F), v: &F| {
                let d = |x: F, y: F| ((x.0 - y.0).powi(2) + (x.1 - y.1).powi(2)).sqrt();
                d(*p, *v) + d(*v, *q) - d(*p, *q) < 1e-8
            };
            for v in &got {
                ensure!(parts.iter().any(|p| on(p, v)), "{:?} and {:?} are said to meet in {:?}", c.a, c.b, v);
            }
            for p in &parts {
                ensure!(got.iter().any(|v| on(p, v)), "{:?} and {:?} (opened {} {}) meet in {:?}, which is not reported", c.a, c.b, opened, c.open, p);
            }
            for (i, v) in got.iter().enumerate() {
                for w in &got[..i] {
                    ensure!((v.0 - w.0).abs() + (v.1 - w.1).abs() > 1e-8, "{:?} is reported twice for {:?} and {:?}", v, c.a, c.b);
                }
            }
            o.runs += 1;
            o.trans += (na * nb) as u64;
            o.state(&(c.frame, opened, swap, got.len(), fingerprint(&(&c.a, &c.b, c.open))));
        }
    }
    Ok(())
}

/// The frame a pair is explored in: sides that cross off the lattice get rounded
/// crossing points and small angles, which at the smallest scale, or very far
/// away for its size, are not told from the tolerance.
fn fit(frame: u8, a: &[P], b: &[P], open: bool) -> u8 {
    let mut tame = true;
    for i in 0..a.len() {
        for j in 0..if open { b.len() - 1 } else { b.len() } {
            let (p, q) = (a[i], a[(i + 1) % a.len()]);
            let mut ts = vec![];
            params(p, q, b[j], b[(j + 1) % b.len()], &mut ts);
            tame &= ts.iter().all(|t| (t.n * (q.0 - p.0) as i128) % t.d == 0 && (t.n * (q.1 - p.1) as i128) % t.d == 0);
        }
    }
    if tame {
        return frame;
    }
    match frame {
        14 | 15 => frame + 2,
        f => f,
    }
}

// ------------------------------------------------------------------ Boolean operations

pub fn farea(p: &[F]) -> f64 {
    let n = p.len();
    (0..n).map(|i| p[i].0 * p[(i + 1) % n].1 - p[i].1 * p[(i + 1) % n].0).sum::<f64>() / 2.0
}

/// clip a convex polygon by a counterclockwise triangle
fn clip(p: &[F], t: &[F; 3]) -> Vec<F> {
    let mut out = p.to_vec();
    for i in 0..3 {
        let (a, b) = (t[i], t[(i + 1) % 3]);
        let side = |q: F| (b.0 - a.0) * (q.1 - a.1) - (b.1 - a.1) * (q.0 - a.0);
        let inp = std::mem::take(&mut out);
        let n = inp.len();
        for j in 0..n {
            let (c, d) = (inp[j], inp[(j + 1) % n]);
            let (sc, sd) = (side(c), side(d));
            if sc >= 0.0 {
                out.push(c);
            }
            if (sc > 0.0 && sd < 0.0) || (sc < 0.0 && sd > 0.0) {
                let u = sc / (sc - sd);
                out.push((c.0 + u * (d.0 - c.0), c.1 + u * (d.1 - c.1)));
            }
        }
        if out.len() < 3 {
            return vec![];
        }
    }
    out
}

fn fan(p: &[F]) -> Vec<(f64, [F; 3])> {
    let o = p[0];
    let mut r = vec![];
    for i in 1..p.len() - 1 {
        let t = [o, p[i], p[i + 1]];
        let a = farea(&t);
        if a > 1e-15 {
            r.push((1.0, t));
        } else if a < -1e-15 {
            r.push((-1.0, [o, p[i + 1], p[i]]));
        }
    }
    r
}

/// Area (with multiplicity) of the common part of counterclockwise polygons:
/// signed fans of triangles clipped against each other.
pub fn common(ps: &[&[F]]) -> f64 {
    fn go(cur: &[F], rest: &[&[F]]) -> f64 {
        if cur.is_empty() {
            return 0.0;
        }
        if rest.is_empty() {
            return farea(cur);
        }
        fan(rest[0]).iter().map(|(s, t)| s * go(&clip(cur, t), &rest[1..])).sum()
    }
    fan(ps[0]).iter().map(|(s, t)| s * go(t, &ps[1..])).sum()
}

pub fn fpts(p: &[P]) -> Vec<F> {
    p.iter().map(|q| (q.0 as f64, q.1 as f64)).collect()
}

/// vertices of a polyline in grid coordinates
pub fn back(f: &Frame, p: &Polyline) -> Vec<F> {
    p.vertices.iter().map(|v| f.back(v.x, v.y)).collect()
}

fn fdist_seg(a: F, b: F, p: F) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l2 = dx * dx + dy * dy;
    let u = if l2 == 0.0 { 0.0 } else { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l2).max(0.0).min(1.0) };
    ((a.0 + u * dx - p.0).powi(2) + (a.1 + u * dy - p.1).powi(2)).sqrt()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Pair {
    frame: u8,
    a: Vec<P>,
    b: Vec<P>,
    plan: Plan,
    /// the first polygon is what uniting these two gives
    #[serde(default, skip_serializing_if = "Option::is_none")]
    from: Option<[Vec<P>; 2]>,
}
impl Planned for Pair {
    fn plan(&self) -> &Plan {
        &self.plan
    }
    fn set_plan(&mut self, p: Plan) {
        self.plan = p;
    }
}

pub struct Kind {
    pub common: f64,
    /// sides share a stretch
    pub side: bool,
    pub touch: bool,
}
pub fn kind(a: &[P], b: &[P]) -> Kind {
    let (mut side, mut touch) = (false, false);
    for i in 0..a.len() {
        for j in 0..b.len() {
            let (p, q, r, t) = (a[i], a[(i + 1) % a.len()], b[j], b[(j + 1) % b.len()]);
            side |= seg_overlap(p, q, r, t);
            touch |= seg_touch(p, q, r, t);
        }
    }
    Kind { common: common(&[&fpts(a), &fpts(b)]), side, touch }
}

impl Pair {
    fn polys(&self) -> Result<(&'static Frame, Rc<Polyline>, Rc<Polyline>), String> {
        let f = at(self.frame);
        let a = match &self.from {
            None => Frame { neg: false, ..*f }.poly(&self.a),
            Some([p, q]) => match Polyline::union(&f.poly(p), &f.poly(q)) {
                Some((u, _)) => Rc::new(u),
                None => return Err(format!("{:?} and {:?} have no union", p, q)),
            },
        };
        Ok((f, a, f.poly(&self.b)))
    }
    /// every side of the result is a stretch of a side of one of the polygons
    fn on_sides(&self, r: &[F]) -> Result<(), String> {
        let (fa, fb) = (fpts(&self.a), fpts(&self.b));
        for i in 0..r.len() {
            let (p, q) = (r[i], r[(i + 1) % r.len()]);
            let ok = [&fa, &fb].iter().any(|w| {
                (0..w.len()).any(|j| {
                    let (c, d) = (w[j], w[(j + 1) % w.len()]);
                    fdist_seg(c, d, p) < 1e-8 && fdist_seg(c, d, q) < 1e-8
                })
            });
            ensure!(ok, "side {:?}-{:?} of the result is on neither polygon", p, q);
        }
        Ok(())
    }
    /// leftover segments and result sides together are exactly the split sides
    fn accounts(&self, f: &Frame, results: &[Vec<F>], unused: &HashSet<(Rc<Vertex>, Rc<Vertex>)>, reverse_b: bool) -> Result<(), String> {
        let key = |p: F| ((p.0 * 1e6).round() as i64, (p.1 * 1e6).round() as i64);
        let want: BTreeSet<(P, P)> = {
            let mut lines = dirs(&self.a);
            let mut b = self.b.clone();
            if reverse_b {
                b.reverse();
            }
            lines.extend(dirs(&b));
            split_exact(&lines).iter().map(|&(p, q)| (key(p), key(q))).collect()
        };
        let mut got: BTreeSet<(P, P)> = BTreeSet::new();
        for r in results {
            for i in 0..r.len() {
                got.insert((key(r[i]), key(r[(i + 1) % r.len()])));
            }
        }
        for (p, q) in unused.iter() {
            got.insert((key(f.back(p.x, p.y)), key(f.back(q.x, q.y))));
        }
        if let Some(x) = got.difference(&want).next() {
            return Err(format!("segment {:?} (in millionths) is no split side of the polygons", x));
        }
        if let Some(x) = want.difference(&got).next() {
            return Err(format!("segment {:?} (in millionths) is neither in the result nor left over", x));
        }
        Ok(())
    }
}

fn dirs(p: &[P]) -> Vec<(P, P)> {
    (0..p.len()).map(|i| (p[i], p[(i + 1) % p.len()])).collect()
}

fn inter_run(c: &Pair) -> Result<Ran, String> {
    let (f, pa, pb) = c.polys()?;
    let (fa, fb) = (fpts(&c.a), fpts(&c.b));
    let ab = common(&[&fa, &fb]);
    let (list, unused) = Polyline::intersection(&pa, &pb);
    let rs: Vec<Vec<F>> = list.iter().map(|p| back(f, p)).collect();
    let mut sum = 0.0;
    for (i, r) in rs.iter().enumerate() {
        ensure!(!list[i].opened, "an opened polyline in the result");
        let ar = farea(r);
        ensure!(ar > 1e-9, "a result polygon is not counterclockwise");
        sum += ar;
        let inside = common(&[r, &fa, &fb]);
        ensure!((inside - ar).abs() < 1e-6, "a result polygon of area {} leaves the common part ({})", ar, inside);
        c.on_sides(r)?;
        for s in &rs[..i] {
            ensure!(common(&[r, s]).abs() < 1e-6, "result polygons overlap");
        }
    }
    ensure!((sum - ab).abs() < 1e-6, "intersection covers {} instead of {}", sum, ab);
    if c.from.is_none() && kind(&c.a, &c.b).touch {
        c.accounts(f, &rs, &unused, false)?;
    }
    Ok(Ran { ops: 1, state: fingerprint(&(c.frame, &c.a, &c.b, rs.len())) })
}

fn union_run(c: &Pair) -> Result<Ran, String> {
    let (f, pa, pb) = c.polys()?;
    let (fa, fb) = (fpts(&c.a), fpts(&c.b));
    let k = kind(&c.a, &c.b);
    let meet = k.common > 1e-9 || k.side;
    let got = Polyline::union(&pa, &pb);
    let n = match &got {
        None => {
            ensure!(!meet, "no union of overlapping polygons");
            0
        }
        Some((r, _)) => {
            ensure!(meet, "a union of polygons that do not meet");
            let r = back(f, r);
            let ar = farea(&r);
            ensure!(ar > 0.0, "the union is not counterclockwise");
            let (ra, rb) = (common(&[&r, &fa]), common(&[&r, &fb]));
            ensure!((ra - farea(&fa)).abs() < 1e-6, "the union covers {} of the first polygon's {}", ra, farea(&fa));
            ensure!((rb - farea(&fb)).abs() < 1e-6, "the union covers {} of the second polygon's {}", rb, farea(&fb));
            c.on_sides(&r)?;
            for i in 0..r.len() {
                let contact = |q: F| {
                    let at = |w: &[F], x: &[F]| {
                        w.iter().any(|v| (v.0 - q.0).abs() + (v.1 - q.1).abs() < 1e-8)
                            && (0..x.len()).any(|i| fdist_seg(x[i], x[(i + 1) % x.len()], q) < 1e-8)
                    };
                    at(&fa, &fb) || at(&fb, &fa)
                };
                for j in 0..i {
                    ensure!(contact(r[i]) || (r[i].0 - r[j].0).abs() + (r[i].1 - r[j].1).abs() > 1e-8, "the union visits {:?} twice", r[i]);
                }
            }
            r.len()
        }
    };
    Ok(Ran { ops: 1, state: fingerprint(&(c.frame, &c.a, &c.b, n)) })
}

fn sub_run(c: &Pair) -> Result<Ran, String> {
    let (f, pa, pb) = c.polys()?;
    let (fa, fb) = (fpts(&c.a), fpts(&c.b));
    let (list, unused) = Polyline::subtraction(&pa, &pb);
    let want = farea(&fa) - common(&[&fa, &fb]);
    let rs: Vec<Vec<F>> = list.iter().map(|p| back(f, p)).collect();
    let mut sum = 0.0;
    for (i, r) in rs.iter().enumerate() {
        ensure!(!list[i].opened, "an opened polyline in the result");
        let ar = farea(r);
        ensure!(ar > 1e-9, "a result polygon is not counterclockwise");
        sum += ar;
        ensure!((common(&[r, &fa]) - ar).abs() < 1e-6, "a result polygon leaves the first polygon");
        ensure!(common(&[r, &fb]).abs() < 1e-6, "a result polygon overlaps the removed one");
        c.on_sides(r)?;
        for s in &rs[..i] {
            ensure!(common(&[r, s]).abs() < 1e-6, "result polygons overlap");
        }
    }
    ensure!((sum - want).abs() < 1e-6, "subtraction covers {} instead of {}", sum, want);
    if c.from.is_none() {
        c.accounts(f, &rs, &unused, true)?;
    }
    Ok(Ran { ops: 1, state: fingerprint(&(c.frame, &c.a, &c.b, rs.len())) })
}

/// The outline of the joint region of two rectangles, where it is a single ring
/// that visits no corner twice.
fn joint(a: &[P], b: &[P]) -> Option<Vec<P>> {
    let covered = |x: i64, y: i64| [a, b].iter().any(|r| r[0].0 <= x && x < r[2].0 && r[0].1 <= y && y < r[2].1);
    let mut next: BTreeMap<P, P> = BTreeMap::new();
    for x in 0..8 {
        for y in 0..8 {
            if !covered(x, y) {
                continue;
            }
            for (out, p, q) in [
                (covered(x, y - 1), (x, y), (x + 1, y)),
                (covered(x + 1, y), (x + 1, y), (x + 1, y + 1)),
                (covered(x, y + 1), (x + 1, y + 1), (x, y + 1)),
                (covered(x - 1, y), (x, y + 1), (x, y)),
            ] {
                if !out && next.insert(p, q).is_some() {
                    return None;
                }
            }
        }
    }
    let head = *next.keys().next()?;
    let mut ring = vec![head];
    while next[ring.last()?] != head {
        ring.push(next[ring.last()?]);
    }
    let n = ring.len();
    (n == next.len()).then(|| (0..n).filter(|&i| orient(ring[(i + n - 1) % n], ring[i], ring[(i + 1) % n]) != 0).map(|i| ring[i]).collect())
}

/// Pairs whose common boundary points are all crossings or shared stretches are
/// unrestricted; `keep` decides.
fn pairs(t: Tier, keep: &dyn Fn(&Pair, &Kind) -> bool, f: &mut dyn FnMut(Pair)) {
    let mut emit = |frame: u8, a: Vec<P>, b: Vec<P>, plan: Plan| {
        let k = kind(&a, &b);
        let p = Pair { frame: fit(frame, &a, &b, false), a, b, plan, from: None };
        if keep(&p, &k) {
            f(p);
        }
    };
    let rects = |n: i64| {
        let mut v = vec![];
        for x in 0..n {
            for y in 0..n {
                for w in x + 1..n {
                    for h in y + 1..n {
                        v.push(vec![(x, y), (w, y), (w, h), (x, h)]);
                    }
                }
            }
        }
        v
    };
    let r4 = rects(4);
    for a in &r4 {
        for b in &r4 {
            for fr in [0u8, 3, 6, 9] {
                emit(fr, a.clone(), b.clone(), Plan::Base(4));
            }
        }
    }
    let mut n = 0usize;
    for k in 3..=t.pick(6, 7) {
        for l in 3..=t.pick(5, 7) {
            let pa = simple_polygons(&grid(3, 3), k, k < 6);
            let pb = simple_polygons(&grid(3, 3), l, false);
            let stride = t.pick(1 + pa.len() * pb.len() / 5000, 1 + pa.len() * pb.len() / 60000);
            for a in &pa {
                for b in &pb {
                    n += 1;
                    if n % stride == 0 {
                        emit(cyc((n / stride) as usize), a.clone(), b.clone(), Plan::Base(2));
                    }
                }
            }
        }
    }
    // the second polygon shifted, so that sides cross off the lattice and vertices meet sides
    for k in 3..=5 {
        let pa = simple_polygons(&grid(3, 3), k, false);
        let pb = simple_polygons(&grid(3, 3), 8 - k.min(5), false);
        for a in pa.iter().step_by(t.pick(if k == 5 { 9 } else { 2 }, 1)) {
            for b in pb.iter().step_by(t.pick(3, 1)) {
                for (dx, dy) in [(1, 0), (1, 1), (-1, 1), (3, 1), (2, 3)] {
                    let b2: Vec<P> = b.iter().map(|p| (p.0 * 2 + dx, p.1 * 2 + dy)).collect();
                    n += 1;
                    emit(cyc((n) as usize), scale(a, 2), b2, Plan::Base(2));
                }
            }
        }
    }
    let t4 = simple_polygons(&grid(4, 4), 3, false);
    for (i, a) in t4.iter().enumerate() {
        for b in t4.iter().skip(i % t.pick(29, 3)).step_by(t.pick(29, 3)) {
            emit(0, a.clone(), b.clone(), Plan::Base(2));
        }
    }
    // combs against bars: several parts
    for teeth in 2..=t.pick(3, 5) {
        let mut comb = vec![(0, 0), (2 * teeth - 1, 0)];
        for i in (0..teeth).rev() {
            comb.push((2 * i + 1, 4));
            comb.push((2 * i, 4));
            if i > 0 {
                comb.push((2 * i, 1));
                comb.push((2 * i - 1, 1));
            }
        }
        for y0 in -1..=4 {
            for y1 in y0 + 1..=5 {
                for x0 in -1..=2 {
                    for x1 in (2 * teeth - 3)..=2 * teeth {
                        if x1 <= x0 {
                            continue;
                        }
                        let bar = vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)];
                        emit(0, comb.clone(), bar.clone(), Plan::Base(3));
                        emit(4, bar, comb.clone(), Plan::Base(3));
                    }
                }
            }
        }
    }
    // schedules
    let r3 = rects(3);
    for a in &r3 {
        for b in &r3 {
            emit(0, a.clone(), b.clone(), Plan::Deviate { policy: 0, depth: t.pick(1, 2) });
        }
    }
    let t3 = simple_polygons(&grid(3, 3), 4, false);
    for a in t3.iter().step_by(t.pick(4, 1)) {
        for b in t3.iter().step_by(t.pick(5, 2)) {
            emit(1, a.clone(), b.clone(), Plan::Deviate { policy: 0, depth: 1 });
        }
    }
    // a polygon that comes from an operation itself
    let rs = rects(t.pick(3, 4));
    for (i, a) in rs.iter().enumerate() {
        for (j, b) in rs.iter().enumerate() {
            let Some(u) = joint(a, b) else { continue };
            if !(kind(a, b).common > 1e-9) || u == *a || u == *b {
                continue;
            }
            for (k, c) in rs.iter().enumerate() {
                let fr = [17u8, 23, 20, 24, 22][(i + j + k) % 5];
                let p = Pair { frame: fr, a: u.clone(), b: c.clone(), plan: Plan::Base(t.pick(3, 5)), from: Some([a.clone(), b.clone()]) };
                if keep(&p, &kind(&u, c)) {
                    f(p);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C30 splitting

/// The directed pieces of every segment between consecutive points where it
/// meets another one (exactly computed, then rounded).
pub fn split_exact(segs: &[(P, P)]) -> Vec<(F, F)> {
    let mut out = vec![];
    for (i, &(a, b)) in segs.iter().enumerate() {
        let mut ts = vec![Q::new(0, 1), Q::new(1, 1)];
        for (j, &(c, d)) in segs.iter().enumerate() {
            if i != j {
                params(a, b, c, d, &mut ts);
            }
        }
        ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
        ts.dedup();
        let pt = |t: Q| (a.0 as f64 + t.f() * (b.0 - a.0) as f64, a.1 as f64 + t.f() * (b.1 - a.1) as f64);
        for w in ts.windows(2) {
            out.push((pt(w[0]), pt(w[1])));
        }
    }
    out
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Segs {
    frame: u8,
    segs: Vec<(P, P)>,
    /// the lattice's coordinates 0, 1, 2 stand for 0, 1, 2^31, in a unit of 2^-31
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    uneven: bool,
}

fn split_check(c: &Segs, o: &mut Obs) -> Result<(), String> {
    let mut f = *at(c.frame);
    let mut segs = c.segs.clone();
    if c.uneven {
        f.exp -= 31;
        let wide = |p: P| (if p.0 == 2 { 1 << 31 } else { p.0 }, if p.1 == 2 { 1 << 31 } else { p.1 });
        segs = segs.iter().map(|&(a, b)| (wide(a), wide(b))).collect();
    }
    let key = |p: F| ((p.0 * 1e6).round() as i64, (p.1 * 1e6).round() as i64);
    let mut want: Vec<(P, P)> = split_exact(&segs).iter().map(|&(p, q)| (key(p), key(q))).collect();
    let inp: Vec<(Rc<Vertex>, Rc<Vertex>)> = segs.iter().map(|&(a, b)| (f.v(a), f.v(b))).collect();
    let got = split_intersections(&inp);
    let mut got: Vec<(P, P)> = got
        .iter()
        .map(|(p, q)| (key(f.back(p.x, p.y)), key(f.back(q.x, q.y))))
        .collect();
    want.sort();
    got.sort();
    o.runs += 1;
    o.trans += got.len() as u64;
    o.state(&(c.frame, &got));
    ensure!(got == want, "split of {:?} is {:?} instead of {:?} (in millionths)", c.segs, got, want);
    Ok(())
}

fn split_gen(t: Tier, f: &mut dyn FnMut(Segs)) {
    let dir = |g: &[P]| {
        let mut v = vec![];
        for &a in g {
            for &b in g {
                if a != b {
                    v.push((a, b));
                }
            }
        }
        v
    };
    let s33 = dir(&grid(3, 3));
    for i in 0..s33.len() {
        for j in 0..s33.len() {
            for &frame in &TEN {
                f(Segs { frame, segs: vec![s33[i], s33[j]], uneven: false });
            }
        }
    }
    let s44 = dir(&grid(4, 4));
    for i in 0..s44.len() {
        for j in 0..s44.len() {
            f(Segs { frame: 0, segs: vec![s44[i], s44[j]], uneven: false });
        }
    }
    let mut n = 0usize;
    let mut take = |uneven: bool, s: &[(P, P)], k: usize, stride: usize, frames: &[u8], f: &mut dyn FnMut(Segs)| {
        subsets(s.len(), k, &mut |ix| {
            n += 1;
            if n % stride == 0 {
                for &frame in frames {
                    f(Segs { frame, segs: ix.iter().map(|&i| s[i]).collect(), uneven });
                }
            }
        })
    };
    // pieces far shorter than their segments
    let along = |s: &[(P, P)]| -> Vec<(P, P)> { s.iter().copied().filter(|(a, b)| a.0 == b.0 || a.1 == b.1).collect() };
    let straight = along(&s33);
    for k in 2..=3 {
        take(true, &straight, k, 1, &[0, 2, 9], f);
    }
    take(true, &along(&kit::fam::segments(&grid(3, 3))), 4, 1, &[3], f);
    let mut sub = |s: &[(P, P)], k: usize, stride: usize, frames: &[u8], f: &mut dyn FnMut(Segs)| take(false, s, k, stride, frames, f);
    sub(&s33, 3, 1, &[0], f);
    sub(&dir(&grid(3, 2)), 4, 1, &[0, 5], f);
    sub(&s33, 4, t.pick(17, 1), &[4], f);
    // undirected, so that more segments fit
    let und: Vec<(P, P)> = kit::fam::segments(&grid(3, 3));
    sub(&und, 4, 1, &[0, 2], f);
    sub(&und, 5, t.pick(5, 1), &[0], f);
    sub(&kit::fam::segments(&grid(4, 4)), 3, t.pick(3, 1), &[0], f);
    if t.deep() {
        sub(&und, 6, 1, &[3], f);
        sub(&kit::fam::segments(&grid(4, 3)), 4, 1, &[1], f);
    }
}

// ------------------------------------------------------------------ C32 arranging

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    /// a polygon's sides, and the same with one missing / one reversed
    Ring(Vec<P>),
    /// directed edges to concatenate
    Chain(Vec<(P, P)>),
    /// a triangulated polygon
    Hull(Vec<P>),
    /// any triangles of a mesh
    Patch(Vec<[P; 3]>),
    /// directed pieces and a target edge
    Decompose(Vec<(P, P)>, (P, P)),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Arr {
    frame: u8,
    what: What,
    plan: Plan,
}
impl Planned for Arr {
    fn plan(&self) -> &Plan {
        &self.plan
    }
    fn set_plan(&mut self, p: Plan) {
        self.plan = p;
    }
}

fn cyclic_same(a: &[P], b: &[P]) -> bool {
    a.len() == b.len() && (0..a.len()).any(|s| (0..a.len()).all(|i| a[i] == b[(i + s) % b.len()]))
}

/// Ear clipping (exact).
pub fn ears(poly: &[P]) -> Vec<[P; 3]> {
    let mut p = poly.to_vec();
    let mut out = vec![];
    while p.len() > 3 {
        let n = p.len();
        let mut found = false;
        for i in 0..n {
            let (a, b, c) = (p[(i + n - 1) % n], p[i], p[(i + 1) % n]);
            if orient(a, b, c) <= 0 {
                continue;
            }
            let clear = p.iter().all(|&q| q == a || q == b || q == c || !(orient(a, b, q) >= 0 && orient(b, c, q) >= 0 && orient(c, a, q) >= 0));
            if clear {
                out.push([a, b, c]);
                p.remove(i);
                found = true;
                break;
            }
        }
        if !found {
            return vec![];
        }
    }
    if orient(p[0], p[1], p[2]) > 0 {
        out.push([p[0], p[1], p[2]]);
    }
    out
}

fn pts(f: &Frame, p: &Polyline) -> Result<Vec<P>, String> {
    p.vertices.iter().map(|v| f.p(v).ok_or_else(|| format!("unexpected vertex {}", v))).collect()
}

fn arr_run(c: &Arr) -> Result<Ran, String> {
    let f = at(c.frame);
    let state;
    match &c.what {
        What::Ring(p) => {
            let es: HashSet<Rc<Edge>> = dirs(p).iter().map(|&(a, b)| f.e(a, b)).collect();
            let got = Polyline::arrange(&es).ok_or("the sides of a polygon are not arranged")?;
            let got = pts(f, &got)?;
            ensure!(cyclic_same(&got, p), "{:?} arranged as {:?}", p, got);
            for i in 0..p.len() {
                let fewer: HashSet<Rc<Edge>> = dirs(p).iter().enumerate().filter(|(j, _)| *j != i).map(|(_, &(a, b))| f.e(a, b)).collect();
                if fewer.len() > 2 {
                    // an opened chain is no closed polyline
                    let r = Polyline::arrange(&fewer);
                    ensure!(r.is_none(), "{:?} without a side is arranged as a polygon", p);
                }
            }
            // dropping straight corners
            let m = f.poly(p).minified_noncolinear();
            let m = pts(f, &m)?;
            let n = p.len();
            let want: Vec<P> = (0..n).filter(|&i| orient(p[(i + n - 1) % n], p[i], p[(i + 1) % n]) != 0).map(|i| p[i]).collect();
            ensure!(m == want, "{:?} without straight corners is {:?}", p, m);
            let mo = f.open(p).minified_noncolinear();
            ensure!(mo.opened, "the opened {:?} is closed without its straight corners", p);
            let mo = pts(f, &mo)?;
            let want: Vec<P> = (0..n).filter(|&i| i == 0 || i == n - 1 || orient(p[i - 1], p[i], p[i + 1]) != 0).map(|i| p[i]).collect();
            ensure!(mo == want, "the opened {:?} without straight corners is {:?}", p, mo);
            // sides in order
            let es = f.poly(p).into_edges();
            ensure!(es.len() == n && (0..n).all(|i| *es[i] == *f.e(p[i], p[(i + 1) % n])), "sides of {:?}", p);
            let es = f.open(p).into_edges();
            ensure!(es.len() == n - 1 && (0..n - 1).all(|i| *es[i] == *f.e(p[i], p[i + 1])), "sides of the opened {:?}", p);
            ensure!(f.poly(p).head().is_none() && f.poly(p).tail().is_none(), "a closed polyline has ends");
            let op = f.open(p);
            ensure!(op.head() == Some(f.v(p[0])) && op.tail() == Some(f.v(p[n - 1])), "ends of the opened {:?}", p);
            state = fingerprint(&got);
        }
        What::Chain(list) => {
            let es: HashSet<Rc<Edge>> = list.iter().map(|&(a, b)| f.e(a, b)).collect();
            let (ht, th) = Edge::into_hashmap(&es);
            let mut n = 0;
            for (v, ws) in ht.iter() {
                for w in ws.borrow().iter() {
                    ensure!(es.contains(&Rc::new(Edge::new(v, w))), "heads map has {}-{}", v, w);
                    ensure!(th.get(w).map(|s| s.borrow().contains(v)) == Some(true), "tails map lacks {}-{}", v, w);
                    n += 1;
                }
            }
            ensure!(n == es.len() && th.values().map(|s| s.borrow().len()).sum::<usize>() == n, "the maps of {:?} hold {} edges", list, n);
            let got = Edge::arrange(&es);
            let got: BTreeSet<(P, P)> = got
                .iter()
                .map(|e| Ok((f.p(&e.v1).ok_or("unexpected vertex")?, f.p(&e.v2).ok_or("unexpected vertex")?)))
                .collect::<Result<_, String>>()?;
            let want = chains(list);
            ensure!(got == want, "{:?} concatenated to {:?} instead of {:?}", list, got, want);
            state = fingerprint(&got);
        }
        What::Hull(p) => {
            let ts = ears(p);
            let set: HashSet<Rc<Triangle>> = ts.iter().map(|t| f.tri(t[0], t[1], t[2])).collect();
            let got = Polyline::triangles_hull(&set).ok_or("no hull of a triangulated polygon")?;
            let got = pts(f, &got)?;
            ensure!(cyclic_same(&got, p), "the hull of the triangles of {:?} is {:?}", p, got);
            state = fingerprint(&got);
        }
        What::Patch(ts) => {
            let set: HashSet<Rc<Triangle>> = ts.iter().map(|t| f.tri(t[0], t[1], t[2])).collect();
            let got = Polyline::triangles_hull(&set);
            if ts.is_empty() {
                ensure!(got.is_none(), "no triangles have an outline");
                return Ok(Ran { ops: 1, state: 0 });
            }
            let mut sides: Vec<(P, P)> = vec![];
            for t in ts {
                for i in 0..3 {
                    let (a, b) = (t[i], t[(i + 1) % 3]);
                    match sides.iter().position(|s| *s == (b, a)) {
                        Some(j) => drop(sides.remove(j)),
                        None => sides.push((a, b)),
                    }
                }
            }
            // one ring that meets no vertex twice
            let next: BTreeMap<P, P> = sides.iter().copied().collect();
            let mut ring = vec![sides[0].0];
            while let Some(&q) = next.get(ring.last().unwrap()) {
                if q == ring[0] || ring.len() > sides.len() {
                    break;
                }
                ring.push(q);
            }
            let single = next.len() == sides.len() && ring.len() == sides.len();
            match got {
                None => ensure!(!single, "no outline of {:?}", ts),
                Some(g) => {
                    let g = pts(f, &g)?;
                    ensure!(single, "{:?} has the outline {:?}, although it has not just one", ts, g);
                    ensure!(cyclic_same(&g, &ring), "the outline of {:?} is {:?}", ts, g);
                }
            }
            state = fingerprint(ts);
        }
        What::Decompose(list, (a, b)) => {
            let es: HashSet<Rc<Edge>> = list.iter().map(|&(a, b)| f.e(a, b)).collect();
            let got = Edge::decompose(&es, &f.e(*a, *b));
            let want = walk(list, *a, *b);
            let got: Option<Vec<(P, P)>> = match got {
                None => None,
                Some(v) => Some(v.iter().map(|e| Ok((f.p(&e.v1).ok_or("unexpected vertex")?, f.p(&e.v2).ok_or("unexpected vertex")?))).collect::<Result<_, String>>()?),
            };
            ensure!(got == want, "{:?} decomposed over {:?} is {:?} instead of {:?}", (a, b), list, got, want);
            state = fingerprint(&got);
        }
    }
    Ok(Ran { ops: 1, state })
}

/// maximal chains of collinear forward edges
fn chains(list: &[(P, P)]) -> BTreeSet<(P, P)> {
    let mut v: Vec<(P, P)> = list.to_vec();
    v.sort();
    v.dedup();
    'again: loop {
        for i in 0..v.len() {
            for j in 0..v.len() {
                let ((a, b), (c, d)) = (v[i], v[j]);
                if i != j && b == c && orient(a, b, d) == 0 && dot(a, b, c, d) > 0 {
                    v[i] = (a, d);
                    v.remove(j);
                    continue 'again;
                }
            }
        }
        return v.into_iter().collect();
    }
}

/// the pieces that lead from a to b along the segment
fn walk(list: &[(P, P)], a: P, b: P) -> Option<Vec<(P, P)>> {
    let next: BTreeMap<P, P> = list
        .iter()
        .filter(|(c, d)| on_segment(a, b, *c) && on_segment(a, b, *d) && dot(a, b, *c, *d) > 0)
        .copied()
        .collect();
    let mut at = a;
    let mut out = vec![];
    while at != b {
        let n = *next.get(&at)?;
        out.push((at, n));
        at = n;
    }
    Some(out)
}

/// directed edges without lattice points inside
fn primitive(g: &[P]) -> Vec<(P, P)> {
    let mut v = vec![];
    for &a in g {
        for &b in g {
            if a != b && !g.iter().any(|&p| strictly_on(a, b, p)) {
                v.push((a, b));
            }
        }
    }
    v
}

fn arr_gen(t: Tier, f: &mut dyn FnMut(Arr)) {
    for k in 3..=9 {
        for (i, p) in simple_polygons(&grid(3, 3), k, true).into_iter().enumerate() {
            let frame = cyc((i) as usize);
            f(Arr { frame, what: What::Ring(p.clone()), plan: Plan::Deviate { policy: 0, depth: 1 } });
            if !ears(&p).is_empty() {
                f(Arr { frame, what: What::Hull(p.clone()), plan: Plan::Base(4) });
                if k <= t.pick(5, 7) {
                    f(Arr { frame, what: What::Hull(p.clone()), plan: Plan::Deviate { policy: 0, depth: 1 } });
                }
            }
        }
    }
    for k in 3..=t.pick(5, 7) {
        for p in simple_polygons(&grid(4, 3), k, true) {
            f(Arr { frame: 0, what: What::Ring(p.clone()), plan: Plan::Base(3) });
            f(Arr { frame: 0, what: What::Hull(p), plan: Plan::Base(3) });
        }
    }
    // every part of small meshes
    let mut meshes: Vec<Vec<[P; 3]>> = vec![];
    let cell = |x: i64, y: i64, d: bool| {
        let (a, b, c, e) = ((x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1));
        if d { [[a, b, c], [a, c, e]] } else { [[a, b, e], [b, c, e]] }
    };
    for mask in 0..16u32 {
        meshes.push((0..4).flat_map(|i| cell(i % 2, i / 2, mask >> i & 1 == 1).to_vec()).collect());
    }
    meshes.push((0..6).flat_map(|i| cell(i % 3, i / 3, i % 2 == 0).to_vec()).collect());
    for (k, m) in meshes.iter().enumerate() {
        for bits in 0u32..1 << m.len() {
            if m.len() > 8 && bits % t.pick(5, 1) != 0 {
                continue;
            }
            let part: Vec<[P; 3]> = (0..m.len()).filter(|i| bits >> i & 1 == 1).map(|i| m[i]).collect();
            let plan = if m.len() <= 8 && k % 5 == 0 && bits.count_ones() >= 7 { Plan::Deviate { policy: 0, depth: 1 } } else { Plan::Base(3) };
            f(Arr { frame: cyc((k) as usize), what: What::Patch(part), plan });
        }
    }
    // a ring around a hole, whole and opened
    let ring: Vec<[P; 3]> = (0..9).filter(|&i| i != 4).flat_map(|i| cell(i % 3, i / 3, i % 2 == 0).to_vec()).collect();
    for i in 0..=ring.len() {
        let part: Vec<[P; 3]> = ring.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, t)| *t).collect();
        f(Arr { frame: 0, what: What::Patch(part), plan: Plan::Deviate { policy: 0, depth: 1 } });
    }
    // concatenation
    let mut go = |es: &[(P, P)], k: usize, plan: Plan, stride: usize, frames: &[u8]| {
        let mut n = 0usize;
        subsets(es.len(), k, &mut |ix| {
            n += 1;
            if n % stride == 0 {
                for &frame in frames {
                    f(Arr { frame, what: What::Chain(ix.iter().map(|&i| es[i]).collect()), plan: plan.clone() });
                }
            }
        })
    };
    let line = primitive(&grid(4, 1));
    for k in 1..=line.len() {
        go(&line, k, Plan::Deviate { policy: 0, depth: t.pick(1, 2) }, 1, &[0, 2, 4]);
    }
    let long = primitive(&grid(6, 1));
    for k in 1..=long.len() {
        go(&long, k, Plan::Base(4), 1, &FEW);
    }
    let two = primitive(&grid(3, 2));
    for k in 1..=t.pick(4, 5) {
        go(&two, k, Plan::Base(4), 1, &[0]);
    }
    let g33 = primitive(&grid(3, 3));
    go(&g33, 2, Plan::Deviate { policy: 0, depth: 1 }, 1, &[0, 1]);
    go(&g33, 3, Plan::Base(3), 1, &[0]);
    go(&g33, 4, Plan::Base(2), t.pick(7, 1), &[0]);
    // crosses of collinear chains
    for n in 3..=t.pick(4, 6) {
        let mut es = vec![];
        for i in 0..n {
            es.push(((i, 1), (i + 1, 1)));
            es.push(((1, i + 1), (1, i)));
            es.push(((i, i), (i + 1, i + 1)));
        }
        go(&es, es.len(), Plan::Deviate { policy: 0, depth: 1 }, 1, &FEW);
        go(&es, es.len() - 1, Plan::Deviate { policy: 1, depth: 1 }, 1, &[0]);
    }
    // decomposition over every subset of pieces of a line, both directions, with strangers
    let line = primitive(&grid(4, 1));
    for k in 0..=line.len() {
        subsets(line.len(), k, &mut |ix| {
            let mut pieces: Vec<(P, P)> = ix.iter().map(|&i| line[i]).collect();
            for extra in [None, Some(((1, 0), (1, 1))), Some(((1, 1), (1, 0))), Some(((0, 1), (3, 1))), Some(((0, 0), (0, 2)))] {
                if let Some(e) = extra {
                    pieces.push(e);
                }
                for a in 0..4 {
                    for b in 0..4 {
                        // pieces beyond the target are only touched by it
                        if a != b {
                            f(Arr { frame: ((a + b) % 5 * 2) as u8, what: What::Decompose(pieces.clone(), ((a, 0), (b, 0))), plan: Plan::Base(2) });
                        }
                    }
                }
                if extra.is_some() {
                    pieces.pop();
                }
            }
        })
    }
    let two: Vec<(P, P)> = primitive(&grid(3, 3)).into_iter().filter(|(a, b)| a.0 <= b.0 || a.1 < b.1).collect();
    for k in 1..=t.pick(2, 3) {
        subsets(two.len(), k, &mut |ix| {
            let pieces: Vec<(P, P)> = ix.iter().map(|&i| two[i]).collect();
            for (a, b) in [((0, 0), (2, 2)), ((0, 0), (2, 0)), ((2, 1), (0, 1)), ((0, 2), (2, 0)), ((0, 0), (1, 2)), ((1, 1), (1, 2))] {
                f(Arr { frame: 0, what: What::Decompose(pieces.clone(), (a, b)), plan: Plan::Base(2) });
            }
        })
    }
}

pub fn location() -> FnCheck<Loc> {
    FnCheck {
        id: "C24",
        bounds: |t| format!("every simple polygon (straight corners, both orientations, every start) of the 3x3 grid in 25 frames, 4x3 k<={}, 4x4 k<={}, against every point of the twice (some four times) finer lattice around it; vertical sides off by the last digit", t.pick(6, 8), t.pick(4, 6)),
        gen: loc_gen,
        check: loc_check,
        assume: &[],
    }
}
pub fn relations() -> FnCheck<Rel> {
    FnCheck {
        id: "C25",
        bounds: |t| format!("segments of the 7x7 lattice against every polygon of the doubled 3x3 grid with k<={} (evenly thinned above 4 corners), triangles and quadrilaterals (opened and closed) against shifted polygons with up to 6 corners at both scales, 4x4 quadrilaterals against triangles", t.pick(7, 9)),
        gen: rel_gen,
        check: rel_check,
        assume: &[],
    }
}
pub fn meetings() -> FnCheck<Rel> {
    FnCheck {
        id: "C41",
        bounds: |t| format!("the pairs of C25, the first polyline closed and opened, in both orders of the arguments: segments of the 7x7 lattice against every polygon of the doubled 3x3 grid with k<={}, small polygons (opened and closed) against shifted ones at both scales, 4x4 quadrilaterals against triangles", t.pick(7, 9)),
        gen: rel_gen,
        check: meet_check,
        assume: &["points are compared within 1e-8 grid units"],
    }
}
pub fn splitting() -> FnCheck<Segs> {
    FnCheck {
        id: "C30",
        bounds: |t| format!("every pair of directed segments of the 3x3 (16 frames) and 4x4 grids, every triple on 3x3 and on 4x4 (undirected{}), quadruples and quintuples on 3x3; pairs to quadruples of axis-parallel segments with pieces down to 2^-31 of them", t.pick(", every third", "")),
        gen: split_gen,
        check: split_check,
        assume: &["end points closer than 1e-6 count as the same"],
    }
}
pub fn plans() -> Vec<PlanCheck<Pair>> {
    vec![
        PlanCheck {
            id: "C27",
            bounds: |t| format!("pairs of rectangles on 4x4, of polygons with up to {} corners on 3x3 (thinned evenly), of polygons shifted by half a unit, of 4x4 triangles, combs against bars; every schedule with <=1 deviation for 3x3 rectangles and a stride of 4-gons; unions of two rectangles with a third", t.pick(6, 7)),
            gen: |t, f| pairs(t, &|_, k| !(k.common < 1e-9 && k.touch && !k.side), f),
            run: inter_run,
            assume: &["polygons that share only isolated points are excluded"],
        },
        PlanCheck {
            id: "C28",
            bounds: |t| format!("pairs of rectangles on 4x4, of polygons with up to {} corners on 3x3 (thinned evenly), of polygons shifted by half a unit, of 4x4 triangles, combs against bars; every schedule with <=1 deviation for 3x3 rectangles and a stride of 4-gons; unions of two rectangles with a third", t.pick(6, 7)),
            gen: |t, f| pairs(t, &|_, k| !(k.common < 1e-9 && k.touch && !k.side), f),
            run: union_run,
            assume: &["polygons that share only isolated points are excluded"],
        },
        PlanCheck {
            id: "C29",
            bounds: |t| format!("overlapping pairs (second polygon not strictly inside the first) of rectangles on 4x4, of polygons with up to {} corners on 3x3 (thinned evenly), of polygons shifted by half a unit, of 4x4 triangles, combs against bars; every schedule with <=1 deviation for 3x3 rectangles and a stride of 4-gons; unions of two rectangles with a third", t.pick(6, 7)),
            gen: |t, f| pairs(t, &|p, k| k.common > 1e-9 && !(relation(&p.a, &p.b, false) == (true, false, false)), f),
            run: sub_run,
            assume: &["disjoint polygons and removals strictly inside (holes) are excluded: the operation reports them as empty by design"],
        },
    ]
}
pub fn arranging() -> PlanCheck<Arr> {
    PlanCheck {
        id: "C32",
        bounds: |t| format!("every simple polygon of the 3x3 grid and 4x3 k<={} as ring (closed and opened) and as triangulated hull, every set of triangles of 17 small meshes; every set of directed pieces of lines with 3 and 5 pieces, of the 3x2 grid (<={}), of the 3x3 grid (<=4); decompositions over every set of pieces of a line; schedules with <=1 deviation", t.pick(5, 7), t.pick(4, 5)),
        gen: arr_gen,
        run: arr_run,
        assume: &[],
    }
}
