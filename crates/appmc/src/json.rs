//! Descriptions of domains as the JSON text a user writes.
use app::json_serializar::models::{input::TriangulationInput, output::TriangulationOutput};
use kit::frame::*;
use kit::geo::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Shape {
    Poly(Vec<P>),
    /// centre, radius (half units) and number of sides, 4 being a diamond
    Circle(P, i64, u32),
}
use Shape::*;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    Inc(Shape),
    Rem(Shape),
    /// segments: consecutive pairs of points
    Seg(Vec<(P, P)>),
    /// the same, assembled by index
    Asm(Vec<(P, P)>),
    Ver(Vec<P>),
}
use Act::*;

impl Shape {
    /// the shape's corners (diamonds only among the circles)
    pub fn corners(&self) -> Vec<P> {
        match self {
            Poly(p) => p.clone(),
            Circle((x, y), r, _) => vec![(x + r, *y), (*x, y + r), (x - r, *y), (*x, y - r)],
        }
    }
    fn json(&self, f: &Frame) -> String {
        match self {
            Poly(p) => format!("\"geometry\": \"polyline\", \"points\": [{}]", points(f, p)),
            Circle(c, r, n) => format!(
                "\"geometry\": \"circle\", \"scalars\": [{:?}, {:?}], \"points\": [{}]",
                *r as f64 * f.scale(),
                *n as f64,
                points(f, &[*c])
            ),
        }
    }
}
pub fn points(f: &Frame, p: &[P]) -> String {
    let l: Vec<String> = p
        .iter()
        .map(|&p| {
            let (x, y) = f.xy(p);
            format!("{{ \"x\": {:?}, \"y\": {:?} }}", x, y)
        })
        .collect();
    l.join(", ")
}
impl Act {
    pub fn json(&self, f: &Frame) -> String {
        let (intent, body) = match self {
            Inc(s) => ("include", s.json(f)),
            Rem(s) => ("remove", s.json(f)),
            Seg(s) => {
                let p: Vec<P> = s.iter().flat_map(|s| [s.0, s.1]).collect();
                ("constraint", format!("\"geometry\": \"segments\", \"points\": [{}]", points(f, &p)))
            }
            Asm(s) => {
                let mut p: Vec<P> = s.iter().flat_map(|s| [s.1, s.0]).collect();
                p.sort();
                p.dedup();
                let at = |q: &P| p.iter().position(|x| x == q).unwrap();
                let a: Vec<String> = s.iter().map(|s| format!("[{}, {}]", at(&s.0), at(&s.1))).collect();
                (
                    "constraint",
                    format!("\"geometry\": \"segments\", \"points\": [{}], \"assemble\": [{}]", points(f, &p), a.join(", ")),
                )
            }
            Ver(v) => ("constraint", format!("\"geometry\": \"vertices\", \"points\": [{}]", points(f, v))),
        };
        format!("{{ \"intent\": {:?}, {} }}", intent, body)
    }
}
pub fn document(f: &Frame, acts: &[Act], params: &str) -> String {
    let l: Vec<String> = acts.iter().map(|a| a.json(f)).collect();
    format!("{{ \"name\": \"case\", \"date\": \"then\", \"actions\": [{}], \"params\": {{ {} }} }}", l.join(",\n"), params)
}
pub fn read(text: &str) -> Result<TriangulationInput, String> {
    serde_json::from_str(text).map_err(|e| format!("not read: {}", e))
}

/// The output's triangles by their points.
pub fn triangles(f: &Frame, o: &TriangulationOutput) -> Result<Vec<[P; 3]>, String> {
    let pts: Vec<P> = o
        .coordinates
        .iter()
        .map(|p| {
            let v = nlsn_delaunay::elements::vertex::Vertex::new(p.x, p.y);
            f.p(&v).ok_or_else(|| format!("unexpected point {} {}", p.x, p.y))
        })
        .collect::<Result<_, String>>()?;
    o.triangles
        .iter()
        .map(|t| {
            let g = |i: usize| pts.get(i).copied().ok_or_else(|| format!("triangle names vertex {} of {}", i, pts.len()));
            Ok([g(t.v1)?, g(t.v2)?, g(t.v3)?])
        })
        .collect()
}
