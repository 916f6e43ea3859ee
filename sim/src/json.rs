//! JSON as the command line client's user has it in files: our own reader and writer, which keep numbers as they are written,
//! and our own idea of how a value is exported and imported.
use crate::mval::MVal;
use crate::plan::Content;
use crate::rng::Rng;
use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    ///as written
    Num(String),
    Str(String),
    ///any of these (in what is expected)
    StrOf(Vec<String>),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn eat(&mut self, s: &str) -> Option<()> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<J> {
        self.ws();
        match *self.b.get(self.i)? {
            b'n' => self.eat("null").map(|()| J::Null),
            b't' => self.eat("true").map(|()| J::Bool(true)),
            b'f' => self.eat("false").map(|()| J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat("]").is_some() {
                    return Some(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    if self.eat("]").is_some() {
                        return Some(J::Arr(v));
                    }
                    self.eat(",")?;
                }
            }
            b'{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                if self.eat("}").is_some() {
                    return Some(J::Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(":")?;
                    let v = self.value()?;
                    if m.insert(k, v).is_some() {
                        return None;
                    }
                    self.ws();
                    if self.eat("}").is_some() {
                        return Some(J::Obj(m));
                    }
                    self.eat(",")?;
                }
            }
            b'-' | b'0'..=b'9' => {
                let a = self.i;
                while self.i < self.b.len() && matches!(self.b[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[a..self.i]).ok()?;
                t.parse::<f64>().ok()?;
                Some(J::Num(t.to_string()))
            }
            _ => None,
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let t = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?;
        self.i += 4;
        u32::from_str_radix(t, 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        self.eat("\"")?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    let c = match e {
                        b'n' => '\n',
                        b't' => '\t',
                        b'r' => '\r',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'u' => {
                            let mut x = self.hex4()?;
                            if (0xd800..0xdc00).contains(&x) {
                                self.eat("\\u")?;
                                let y = self.hex4()?;
                                x = 0x10000 + ((x - 0xd800) << 10) + y.checked_sub(0xdc00)?;
                            }
                            char::from_u32(x)?
                        }
                        b'"' | b'\\' | b'/' => e as char,
                        _ => return None,
                    };
                    out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                }
                0..=0x1f => return None,
                c => out.push(c),
            }
        }
    }
}

fn floaty(t: &str) -> bool {
    t.contains(['.', 'e', 'E'])
}
fn float(f: f64) -> Option<J> {
    f.is_finite().then(|| J::Num(format!("{f:?}")))
}
fn int(s: &str) -> Option<J> {
    let s = s.trim_start_matches('+');
    let ok = if s.starts_with('-') { s.parse::<i64>().is_ok() } else { s.parse::<u64>().is_ok() };
    ok.then(|| J::Num(s.to_string()))
}
fn num(n: u64) -> J {
    J::Num(n.to_string())
}

///a timestamp, with a blank or a T in the middle
pub fn time_text(v: &MVal) -> Option<(String, String)> {
    let MVal::Time(y, mo, d, h, mi, s, n) = v else { return None };
    let t = NaiveDateTime::new(NaiveDate::from_ymd_opt(*y, *mo, *d)?, NaiveTime::from_hms_nano_opt(*h, *mi, *s, *n)?);
    Some((format!("{t}"), format!("{t:?}")))
}

impl J {
    pub fn parse(t: &str) -> Option<J> {
        let mut p = P { b: t.as_bytes(), i: 0 };
        let v = p.value()?;
        p.ws();
        (p.i == t.len()).then_some(v)
    }
    ///how a value is exported; None: it cannot be
    pub fn of(v: &MVal, types: bool) -> Option<J> {
        let obj = |ty: u64, f: Vec<(&str, J)>| {
            let mut m: BTreeMap<String, J> = f.into_iter().map(|(a, b)| (a.to_string(), b)).collect();
            if types {
                m.insert("souris_type".into(), num(ty));
            }
            J::Obj(m)
        };
        Some(match v {
            MVal::Char(c) => J::Str(char::from_u32(*c)?.to_string()),
            MVal::Str(s) => J::Str(s.clone()),
            MVal::Bool(b) => J::Bool(*b),
            MVal::Int(s) => int(s)?,
            MVal::Json(s) => J::parse(s)?,
            MVal::Null => J::Null,
            MVal::F32(b) => float(f64::from(f32::from_bits(*b)))?,
            MVal::F64(b) => float(f64::from_bits(*b))?,
            MVal::Arr(v) => J::Arr(v.iter().map(|x| J::of(x, types)).collect::<Option<_>>()?),
            MVal::Map(m) => J::Obj(m.iter().map(|(k, x)| J::of(x, types).map(|x| (k.clone(), x))).collect::<Option<_>>()?),
            MVal::Cart(a, b) => obj(5, vec![("real", int(a)?), ("imaginary", int(b)?)]),
            MVal::Polar(a, b) => obj(5, vec![("modulus", float(f64::from_bits(*a))?), ("argument", float(f64::from_bits(*b))?)]),
            MVal::Time(..) => {
                let (a, b) = time_text(v)?;
                obj(6, vec![("timestamp", J::StrOf(vec![a, b]))])
            }
            MVal::Tz(s) => obj(12, vec![("timezone", J::Str(s.clone()))]),
            MVal::Bin(b) => obj(2, vec![("bytes", J::Arr(b.0.iter().map(|&x| num(x.into())).collect()))]),
            MVal::V4(a) => {
                let v = J::Arr(a.iter().map(|&x| num(x.into())).collect());
                if types {
                    obj(13, vec![("octets", v)])
                } else {
                    v
                }
            }
            MVal::V6(a) => {
                let v = J::Arr(a.chunks(2).map(|x| num(u64::from(x[0]) << 8 | u64::from(x[1]))).collect());
                if types {
                    obj(14, vec![("octets", v)])
                } else {
                    v
                }
            }
        })
    }
    pub fn export(c: &Content, types: bool) -> Option<J> {
        if c.len() == 1 {
            if let Some(v) = c.get("JSON") {
                return J::of(v, types);
            }
        }
        Some(J::Obj(c.iter().map(|(k, v)| J::of(v, types).map(|v| (k.clone(), v))).collect::<Option<_>>()?))
    }
    ///a file which holds that content
    pub fn of_content(c: &Content, r: &mut Rng) -> J {
        if c.len() == 1 && r.chance(50, 100) {
            if let Some(v) = c.get("JSON").filter(|v| !matches!(v, MVal::Map(_))) {
                // an object with a type is not a map either
                return J::of(v, true).unwrap_or(J::Null);
            }
        }
        J::Obj(c.iter().map(|(k, v)| (k.clone(), J::of(v, true).unwrap_or(J::Null))).collect())
    }
    ///the other one is what this one describes
    pub fn fits(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Num(a), J::Num(b)) => {
                if floaty(a) {
                    floaty(b) && a.parse::<f64>().ok().map(f64::to_bits) == b.parse::<f64>().ok().map(f64::to_bits)
                } else {
                    a == b
                }
            }
            (J::Str(a), J::Str(b)) => a == b,
            (J::StrOf(a), J::Str(b)) => a.contains(b),
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.fits(y)),
            (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| x.fits(y))),
            _ => false,
        }
    }
    fn put(&self, r: &mut Rng, wide: bool, out: &mut String) {
        let gap = |r: &mut Rng, out: &mut String| {
            if wide {
                for _ in 0..r.below(3) {
                    out.push(*r.pick(&[' ', '\n', '\t', '\r']));
                }
            }
        };
        gap(r, out);
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(s) => out.push_str(s),
            J::Str(s) => text(s, r, wide, out),
            J::StrOf(v) => text(&v[r.below(v.len() as u64) as usize], r, wide, out),
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.put(r, wide, out);
                }
                gap(r, out);
                out.push(']');
            }
            J::Obj(m) => {
                out.push('{');
                let mut v: Vec<_> = m.iter().collect();
                r.shuffle(&mut v);
                for (i, (k, x)) in v.into_iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    gap(r, out);
                    text(k, r, wide, out);
                    gap(r, out);
                    out.push(':');
                    x.put(r, wide, out);
                }
                gap(r, out);
                out.push('}');
            }
        }
        gap(r, out);
    }
    pub fn text(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        let wide = r.chance(50, 100);
        self.put(r, wide, &mut s);
        s
    }
}
fn text(s: &str, r: &mut Rng, wide: bool, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        if c == '"' || c == '\\' {
            out.push('\\');
            out.push(c);
        } else if c < ' ' || c == '\u{7f}' || wide && r.chance(3, 100) {
            for u in c.encode_utf16(&mut [0; 2]) {
                out.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}
