//! Frames: exact maps from the integer grid into the f64 plane (quarter turns,
//! power-of-two scaling, integer offsets), so that one grid case is also
//! explored away from the origin, in negative coordinates, at other scales and
//! with negative zeros, while the exact integer reference keeps applying; and
//! some inexact ones (in tenths, or turned by an odd angle at an odd scale), in
//! which the lines and circles of the grid are only lines and circles up to the
//! rounding of the coordinates, as they are in any data a user brings.
use crate::geo::P;
use nlsn_delaunay::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub exp: i32,
    pub rot: u8,
    pub ox: i64,
    pub oy: i64,
    /// write zeros as -0.0
    pub neg: bool,
    /// length of the grid's unit, but for the power of two
    pub unit: f64,
    /// cosine and sine of a turn
    pub turn: (f64, f64),
}

const fn fr(exp: i32, rot: u8, ox: i64, oy: i64, neg: bool) -> Frame {
    Frame { exp, rot, ox, oy, neg, unit: 1.0, turn: (1.0, 0.0) }
}
const fn tenths(exp: i32, rot: u8) -> Frame {
    Frame { exp, rot, ox: 0, oy: 0, neg: false, unit: 0.1, turn: (1.0, 0.0) }
}
const fn askew(unit: f64, turn: (f64, f64), ox: i64, oy: i64) -> Frame {
    Frame { exp: 0, rot: 0, ox, oy, neg: false, unit, turn }
}

/// Cases name a frame by its index here.
pub const FRAMES: [Frame; 25] = [
    fr(0, 0, 0, 0, false),
    fr(0, 0, -2, -2, true),
    fr(-2, 1, 0, 0, false),
    fr(0, 2, 0, 0, false),
    fr(1, 3, -3, 5, false),
    fr(-3, 0, -1, -1, false),
    fr(0, 1, 100, -200, false),
    fr(4, 0, -37, 11, true),
    fr(-1, 2, 1000, 1000, false),
    fr(3, 3, 0, 0, true),
    // far away, and far away for their size
    fr(0, 0, 1 << 20, -(1 << 20), false),
    fr(-8, 1, 0, 0, false),
    fr(10, 2, -(1 << 21), 1 << 19, false),
    fr(0, 3, -1_000_000, 3, false),
    fr(-8, 0, 1 << 20, -(1 << 19), false),
    // small units: squares, or fourth powers, just above 1e-14
    fr(-22, 1, 0, 0, false),
    fr(-11, 3, 0, 0, false),
    tenths(0, 0),
    tenths(3, 1),
    askew(37.0, (0.8775825618903728, 0.479425538604203), 0, 0),
    askew(1234.5, (0.4535961214255773, -0.8912073600614354), -517, 7003),
    askew(0.07, (-0.9948439033594595, 0.10141798631660186), 3, -2),
    // millionths, turned
    askew(3.1e-6, (0.6216099682706644, 0.7833269096274834), 0, 0),
    // as on a map
    askew(2.3, (0.9393727128473789, -0.3428978074554513), 512_345, 4_187_654),
    // meters in degrees
    askew(1.1e-5, (0.7648421872844885, 0.644217687237691), 13, 52),
];

impl Frame {
    /// lattice points fall on their places without rounding
    pub fn is_exact(&self) -> bool {
        self.unit == 1.0 && self.turn.1 == 0.0
    }
    /// rounding of the coordinates, in grid units
    pub fn grain(&self) -> f64 {
        2.3e-16 * (1.0 + self.ox.abs().max(self.oy.abs()) as f64 / self.scale())
    }
    pub fn scale(&self) -> f64 {
        (2f64).powi(self.exp) * self.unit
    }
    pub fn xy(&self, p: P) -> (f64, f64) {
        let mut p = p;
        for _ in 0..self.rot {
            p = (-p.1, p.0);
        }
        let s = self.scale();
        if self.turn.1 != 0.0 {
            let (x, y) = (p.0 as f64, p.1 as f64);
            let (c, d) = self.turn;
            return (s * (c * x - d * y) + self.ox as f64, s * (d * x + c * y) + self.oy as f64);
        }
        let f = |a: i64, o: i64| {
            let r = a as f64 * s + o as f64;
            if r == 0.0 {
                if self.neg { -0.0 } else { 0.0 }
            } else {
                r
            }
        };
        (f(p.0, self.ox), f(p.1, self.oy))
    }
    pub fn v(&self, p: P) -> Rc<Vertex> {
        let (x, y) = self.xy(p);
        Rc::new(Vertex::new(x, y))
    }
    pub fn e(&self, a: P, b: P) -> Rc<Edge> {
        Rc::new(Edge::new(&self.v(a), &self.v(b)))
    }
    pub fn tri(&self, a: P, b: P, c: P) -> Rc<Triangle> {
        Rc::new(Triangle::new(&self.v(a), &self.v(b), &self.v(c)))
    }
    pub fn poly(&self, ps: &[P]) -> Rc<Polyline> {
        Rc::new(Polyline::new_closed(ps.iter().map(|&p| self.v(p)).collect()).unwrap())
    }
    pub fn open(&self, ps: &[P]) -> Rc<Polyline> {
        Rc::new(Polyline::new_opened(ps.iter().map(|&p| self.v(p)).collect()).unwrap())
    }
    /// Grid coordinates (not rounded) of a point in the plane.
    pub fn back(&self, x: f64, y: f64) -> (f64, f64) {
        let s = self.scale();
        let mut q = ((x - self.ox as f64) / s, (y - self.oy as f64) / s);
        let (c, d) = self.turn;
        if d != 0.0 {
            let n = c * c + d * d;
            q = ((c * q.0 + d * q.1) / n, (c * q.1 - d * q.0) / n);
        }
        for _ in 0..self.rot {
            q = (q.1, -q.0);
        }
        q
    }
    /// The grid point a vertex stands for, when it is one.
    pub fn p(&self, v: &Vertex) -> Option<P> {
        if v.is_ghost {
            return None;
        }
        let (x, y) = self.back(v.x, v.y);
        let r = (x.round(), y.round());
        if (r.0 - x).abs() > 1e-7 || (r.1 - y).abs() > 1e-7 {
            return None;
        }
        Some((r.0 as i64, r.1 as i64))
    }
}

/// The frames that whole operations are explored in, dealt out in turn.
pub const CYCLE: [u8; 25] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24];
pub fn cyc(n: usize) -> u8 {
    CYCLE[n % CYCLE.len()]
}

/// A frame by its index.
pub fn at(i: u8) -> &'static Frame {
    &FRAMES[i as usize % FRAMES.len()]
}
