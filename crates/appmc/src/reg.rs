//! Regions of the plane as sets of quarter cells: unit cells cut by both
//! diagonals. Coordinates are half units, so that cell centres are integers.
use kit::geo::*;
use std::collections::{BTreeMap, BTreeSet};

/// cells per side of the board
pub const W: i64 = 5;
pub type Reg = u128;

fn bit(x: i64, y: i64, q: i64) -> Option<u32> {
    if x < 0 || y < 0 || x >= W || y >= W {
        None
    } else {
        Some(((y * W + x) * 4 + q.rem_euclid(4)) as u32)
    }
}
fn has(r: Reg, b: Option<u32>) -> bool {
    b.map_or(false, |b| r >> b & 1 == 1)
}
/// corners of a quarter, counterclockwise, the centre last; quarters 0..4 are
/// south, east, north, west
fn corners(x: i64, y: i64, q: i64) -> [P; 3] {
    let c = [(2 * x, 2 * y), (2 * x + 2, 2 * y), (2 * x + 2, 2 * y + 2), (2 * x, 2 * y + 2)];
    [c[q as usize], c[(q as usize + 1) % 4], (2 * x + 1, 2 * y + 1)]
}
/// neighbours over the sides (outer side, centre-wards side of the second corner, of the first)
fn sides(x: i64, y: i64, q: i64) -> [Option<u32>; 3] {
    let o = match q {
        0 => bit(x, y - 1, 2),
        1 => bit(x + 1, y, 3),
        2 => bit(x, y + 1, 0),
        _ => bit(x - 1, y, 1),
    };
    [o, bit(x, y, q + 1), bit(x, y, q + 3)]
}
fn quarters() -> impl Iterator<Item = (i64, i64, i64)> {
    (0..W * W * 4).map(|i| ((i / 4) % W, (i / 4) / W, i % 4))
}
fn index((x, y, q): (i64, i64, i64)) -> u32 {
    bit(x, y, q).unwrap()
}

/// The quarters inside a polygon along grid lines and diagonals.
pub fn fill_poly(p: &[P]) -> Reg {
    let big = scale(p, 3);
    let mut r = 0;
    for (x, y, q) in quarters() {
        let c = corners(x, y, q);
        let m = (c[0].0 + c[1].0 + c[2].0, c[0].1 + c[1].1 + c[2].1);
        if in_poly(&big, m) > 0 {
            r |= 1 << index((x, y, q));
        }
    }
    r
}

/// Directed sides of the region, the region on their left.
pub fn sides_of(r: Reg) -> Vec<(P, P)> {
    let mut out = vec![];
    for (x, y, q) in quarters() {
        if has(r, bit(x, y, q)) {
            let c = corners(x, y, q);
            for (i, n) in sides(x, y, q).iter().enumerate() {
                if !has(r, *n) {
                    out.push((c[i], c[(i + 1) % 3]));
                }
            }
        }
    }
    out
}

/// Directed unit steps of directed lines; opposite steps cancel.
pub fn steps(lines: impl IntoIterator<Item = (P, P)>) -> BTreeMap<(P, P), i32> {
    let mut out: BTreeMap<(P, P), i32> = BTreeMap::new();
    for (a, b) in lines {
        let d = (b.0 - a.0, b.1 - a.1);
        let g = gcd(d.0.abs(), d.1.abs());
        for i in 0..g {
            let u = (a.0 + d.0 / g * i, a.1 + d.1 / g * i);
            let v = (a.0 + d.0 / g * (i + 1), a.1 + d.1 / g * (i + 1));
            if u < v {
                *out.entry((u, v)).or_default() += 1;
            } else {
                *out.entry((v, u)).or_default() -= 1;
            }
        }
    }
    out.retain(|_, n| *n != 0);
    out
}
pub fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

/// Edge-connected parts.
pub fn parts(r: Reg) -> Vec<Reg> {
    let mut left = r;
    let mut out = vec![];
    while left != 0 {
        let p = grow(1 << left.trailing_zeros(), r);
        out.push(p);
        left &= !p;
    }
    out
}
fn grow(seed: Reg, within: Reg) -> Reg {
    let mut p = seed & within;
    loop {
        let mut n = p;
        for k in quarters() {
            if has(within, Some(index(k))) && sides(k.0, k.1, k.2).iter().any(|s| has(p, *s)) {
                n |= 1 << index(k);
            }
        }
        if n == p {
            return p;
        }
        p = n;
    }
}

/// The region with its holes filled.
pub fn filled(r: Reg) -> Reg {
    let all: Reg = quarters().fold(0, |a, k| a | 1 << index(k));
    let mut rim = 0;
    for k in quarters() {
        if sides(k.0, k.1, k.2).iter().any(|s| s.is_none()) {
            rim |= 1 << index(k);
        }
    }
    let free = all & !r;
    all & !grow(rim & free, free)
}

/// Points where the region meets itself.
pub fn pinched(r: Reg) -> bool {
    let mut at: BTreeMap<P, i32> = BTreeMap::new();
    for (a, b) in sides_of(r) {
        *at.entry(a).or_default() += 1;
        *at.entry(b).or_default() += 1;
    }
    at.values().any(|&n| n > 2)
}
/// Points (corners of quarters) on the boundary.
pub fn rim(r: Reg) -> BTreeSet<P> {
    sides_of(r).into_iter().flat_map(|s| [s.0, s.1]).collect()
}

/// Boundary loops as corner lists, the region on their left: outer ones are
/// counterclockwise, those of holes clockwise.
pub fn loops(r: Reg) -> Vec<Vec<P>> {
    let mut next: BTreeMap<P, P> = sides_of(r).into_iter().collect();
    let mut out = vec![];
    while let Some((&s, _)) = next.iter().next() {
        let mut l = vec![];
        let mut p = s;
        while let Some(n) = next.remove(&p) {
            l.push(p);
            p = n;
        }
        assert_eq!(p, s, "a region without pinches");
        let n = l.len();
        out.push((0..n).filter(|&i| orient(l[(i + n - 1) % n], l[i], l[(i + 1) % n]) != 0).map(|i| l[i]).collect());
    }
    out
}

/// What a composition of shapes may mean.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Out {
    Refused,
    Region(Reg),
}

fn meets(a: Reg, b: Reg) -> bool {
    [a | b, a & b, a & !b, b & !a].iter().any(|&r| pinched(r))
}

/// Every meaning over the orders of the removals; None when shapes meet in
/// single points anywhere on the way.
pub fn compose(includes: &[Reg], removes: &[Reg]) -> Option<BTreeSet<Out>> {
    let mut out = BTreeSet::new();
    if includes.is_empty() {
        out.insert(Out::Refused);
        return Some(out);
    }
    for bits in 1u32..1 << includes.len() {
        let u = (0..includes.len()).filter(|i| bits >> i & 1 == 1).fold(0, |a, i| a | includes[i]);
        if includes.iter().any(|&i| meets(u, i) || meets(filled(u), i)) {
            return None;
        }
    }
    let u = includes.iter().fold(0, |a, b| a | b);
    if parts(u).len() != 1 {
        out.insert(Out::Refused);
        return Some(out);
    }
    let b = filled(u);
    let mut order: Vec<usize> = (0..removes.len()).collect();
    loop {
        out.insert(remove_all(b, &order.iter().map(|&i| removes[i]).collect::<Vec<_>>())?);
        // next permutation
        let Some(i) = (1..order.len()).rev().find(|&i| order[i - 1] < order[i]) else { break };
        let j = (i..order.len()).rev().find(|&j| order[j] > order[i - 1]).unwrap();
        order.swap(i - 1, j);
        order[i..].reverse();
    }
    Some(out)
}

fn inside(b: Reg, r: Reg) -> bool {
    r & !b == 0 && rim(b).is_disjoint(&rim(r))
}

fn remove_all(mut b: Reg, removes: &[Reg]) -> Option<Out> {
    let mut pending = removes.to_vec();
    loop {
        let mut unused = vec![];
        let mut changed = false;
        for r in pending {
            if meets(b, r) {
                return None;
            }
            if b & r == 0 || inside(b, r) {
                unused.push(r);
                continue;
            }
            let d = b & !r;
            if parts(d).len() != 1 {
                return Some(Out::Refused);
            }
            b = d;
            changed = true;
        }
        pending = unused;
        if !changed {
            break;
        }
    }
    let holes: Vec<Reg> = pending.into_iter().filter(|&r| inside(b, r)).collect();
    let mut h = 0;
    for bits in 1u32..1 << holes.len() {
        h = (0..holes.len()).filter(|i| bits >> i & 1 == 1).fold(0, |a, i| a | holes[i]);
        if holes.iter().any(|&i| meets(h, i) || meets(filled(h), i)) {
            return None;
        }
    }
    Some(Out::Region(b & !filled(h)))
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn square() {
        let r = fill_poly(&[(0, 0), (4, 0), (4, 4), (0, 4)]);
        assert_eq!(r.count_ones(), 16);
        assert_eq!(loops(r), vec![vec![(0, 0), (4, 0), (4, 4), (0, 4)]]);
        let d = fill_poly(&[(2, 0), (4, 2), (2, 4), (0, 2)]);
        assert_eq!(d.count_ones(), 8);
        let h = fill_poly(&[(2, 2), (8, 2), (8, 8), (2, 8)]);
        let o = fill_poly(&[(0, 0), (10, 0), (10, 10), (0, 10)]);
        assert_eq!(filled(o & !h), o);
        assert_eq!(loops(o & !h).len(), 2);
        assert!(pinched(r | fill_poly(&[(4, 4), (6, 4), (6, 6), (4, 6)])));
        assert_eq!(compose(&[o], &[h]).unwrap(), [Out::Region(o & !h)].into_iter().collect());
    }
}
