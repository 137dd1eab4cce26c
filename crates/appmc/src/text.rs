//! A reader for JSON texts that keeps numbers as they are written, so that
//! they are valued by the standard library and not by the code under test's
//! own parser.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

struct R<'a> {
    s: &'a [u8],
    i: usize,
}
type Res<T> = Result<T, String>;

impl R<'_> {
    fn err<T>(&self, m: &str) -> Res<T> {
        Err(format!("not JSON: {} at byte {}", m, self.i))
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, w: &str) -> Res<()> {
        self.ws();
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            return Ok(());
        }
        self.err(&format!("{:?} expected", w))
    }
    fn string(&mut self) -> Res<String> {
        self.eat("\"")?;
        let mut o: Vec<u8> = vec![];
        loop {
            let Some(&c) = self.s.get(self.i) else { return self.err("open string") };
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(o).map_err(|e| e.to_string()),
                b'\\' => {
                    let Some(&c) = self.s.get(self.i) else { return self.err("open string") };
                    self.i += 1;
                    let ch = match c {
                        b'n' => '\n',
                        b't' => '\t',
                        b'r' => '\r',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'u' => {
                            let h = std::str::from_utf8(self.s.get(self.i..self.i + 4).unwrap_or(b"x")).unwrap_or("x");
                            let Ok(n) = u32::from_str_radix(h, 16) else { return self.err("bad escape") };
                            self.i += 4;
                            char::from_u32(n).unwrap_or('\u{fffd}')
                        }
                        b'"' | b'\\' | b'/' => c as char,
                        _ => return self.err("bad escape"),
                    };
                    let mut b = [0; 4];
                    o.extend(ch.encode_utf8(&mut b).as_bytes());
                }
                0..=31 => return self.err("control character"),
                _ => o.push(c),
            }
        }
    }
    fn value(&mut self) -> Res<J> {
        match self.peek() {
            b'{' => {
                self.eat("{")?;
                let mut m = BTreeMap::new();
                if self.peek() == b'}' {
                    self.eat("}")?;
                    return Ok(J::Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.eat(":")?;
                    let v = self.value()?;
                    if m.insert(k.clone(), v).is_some() {
                        return self.err(&format!("member {:?} twice", k));
                    }
                    if self.peek() == b',' {
                        self.eat(",")?;
                    } else {
                        self.eat("}")?;
                        return Ok(J::Obj(m));
                    }
                }
            }
            b'[' => {
                self.eat("[")?;
                let mut v = vec![];
                if self.peek() == b']' {
                    self.eat("]")?;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    if self.peek() == b',' {
                        self.eat(",")?;
                    } else {
                        self.eat("]")?;
                        return Ok(J::Arr(v));
                    }
                }
            }
            b'"' => self.string().map(J::Str),
            b't' => self.eat("true").map(|_| J::Bool(true)),
            b'f' => self.eat("false").map(|_| J::Bool(false)),
            b'n' => self.eat("null").map(|_| J::Null),
            _ => {
                let a = self.i;
                while self.i < self.s.len() && b"+-.0123456789eE".contains(&self.s[self.i]) {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[a..self.i]).unwrap();
                if t.parse::<f64>().is_err() || t.starts_with('+') || t.starts_with('.') {
                    return self.err("a value expected");
                }
                Ok(J::Num(t.into()))
            }
        }
    }
}

pub fn parse(s: &str) -> Res<J> {
    let mut r = R { s: s.as_bytes(), i: 0 };
    let v = r.value()?;
    r.ws();
    if r.i < r.s.len() {
        return r.err("the end expected");
    }
    Ok(v)
}

impl J {
    pub fn get(&self, k: &str) -> Res<&J> {
        match self {
            J::Obj(m) => m.get(k).ok_or_else(|| format!("no member {:?}", k)),
            _ => Err(format!("no object around {:?}", k)),
        }
    }
    pub fn str(&self) -> Res<&str> {
        if let J::Str(s) = self { Ok(s) } else { Err(format!("{:?} is not a string", self)) }
    }
    pub fn arr(&self) -> Res<&[J]> {
        if let J::Arr(s) = self { Ok(s) } else { Err(format!("{:?} is not a list", self)) }
    }
    pub fn f(&self) -> Res<f64> {
        if let J::Num(s) = self { Ok(s.parse().unwrap()) } else { Err(format!("{:?} is not a number", self)) }
    }
    pub fn index(&self) -> Res<usize> {
        if let J::Num(s) = self { s.parse().map_err(|_| format!("{} is not an index", s)) } else { Err(format!("{:?} is not a number", self)) }
    }
}

/// An output document as written.
pub struct Written {
    pub id: String,
    pub name: String,
    pub date: String,
    pub points: Vec<(f64, f64)>,
    pub tris: Vec<[usize; 3]>,
}
pub fn written(s: &str) -> Res<Written> {
    let j = parse(s)?;
    let mut w = Written {
        id: j.get("id")?.str()?.into(),
        name: j.get("name")?.str()?.into(),
        date: j.get("date")?.str()?.into(),
        points: vec![],
        tris: vec![],
    };
    for p in j.get("coordinates")?.arr()? {
        if p.get("z")?.f()? != 0.0 {
            return Err("a point is off the plane".into());
        }
        w.points.push((p.get("x")?.f()?, p.get("y")?.f()?));
    }
    for t in j.get("triangles")?.arr()? {
        let t = [t.get("v1")?.index()?, t.get("v2")?.index()?, t.get("v3")?.index()?];
        if let Some(i) = t.iter().find(|i| **i >= w.points.len()) {
            return Err(format!("a triangle names point {} of {}", i, w.points.len()));
        }
        w.tris.push(t);
    }
    if !j.get("tetrahedrons")?.arr()?.is_empty() {
        return Err("tetrahedrons in the plane".into());
    }
    Ok(w)
}
