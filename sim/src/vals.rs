//! Values, keys and names, biased towards boundaries.
use crate::bytes::Bytes;
use crate::mval::MVal;
use crate::rng::Rng;
use std::collections::BTreeMap;

///how large things may become
#[derive(Clone, Copy)]
pub struct Size {
    pub max_len: u64,
    pub depth: u32,
    pub width: u64,
}
pub const SMALL: Size = Size { max_len: 24, depth: 1, width: 3 };
pub const MEDIUM: Size = Size { max_len: 300, depth: 3, width: 6 };
pub const LARGE: Size = Size { max_len: 70_000, depth: 4, width: 300 };

pub fn len(r: &mut Rng, max: u64) -> usize {
    const B: [u64; 26] = [
        0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4095, 4096, 65535, 65536,
    ];
    let n = match r.below(3) {
        0 => r.logrange(1, max.max(1)),
        1 => *r.pick(&B),
        _ => r.below(12),
    };
    spend(n.min(max)) as usize
}

///what is left for the sizes of a plan: compressing takes time that grows faster than the size
static mut LEFT: u64 = u64::MAX;
pub fn budget(n: u64) {
    unsafe { LEFT = n };
}
fn spend(n: u64) -> u64 {
    unsafe {
        let n = n.min(LEFT.max(12));
        LEFT -= n.min(LEFT);
        n
    }
}

pub fn ch(r: &mut Rng) -> char {
    const B: [u32; 24] = [
        0, 1, 9, 10, 13, 0x1f, 0x20, 0x22, 0x26, 0x2b, 0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff,
        0xe000, 0xfffd, 0xffff, 0x10ffff,
    ];
    loop {
        let c = match r.below(6) {
            0 => *r.pick(&B),
            1 => r.below(0x80) as u32,
            2 => r.below(0x800) as u32,
            3 => r.below(0x11_0000) as u32,
            _ => u32::from(b'a') + r.below(26) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

///characters with Fibonacci frequencies: the deepest Huffman trees
///(slack: for as many other characters in the same tree)
pub fn fibonacci(n: usize, slack: usize) -> String {
    let mut s = String::new();
    let (mut a, mut b) = (1usize, 1usize);
    let mut c = 0;
    while s.len() < n && c < 40 {
        for _ in 0..a.min(n) {
            s.push(char::from_u32(48 + c).unwrap());
        }
        (a, b) = (b, a + b + slack);
        c += 1;
    }
    s
}
pub fn text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    match r.below(9) {
        0 => {
            let c = ch(r);
            for _ in 0..n {
                s.push(c);
            }
        }
        1 => {
            let (a, b) = (ch(r), ch(r));
            let p = r.range(1, 99);
            for _ in 0..n {
                s.push(if r.chance(p, 100) { a } else { b });
            }
        }
        2 => {
            for _ in 0..n {
                s.push(ch(r));
            }
        }
        3 => {
            // a skewed alphabet: long codes
            let k = r.range(2, 40);
            for _ in 0..n {
                let mut i = 0;
                while i < k && r.coin() {
                    i += 1;
                }
                s.push(char::from_u32(33 + i as u32).unwrap());
            }
        }
        4 => {
            for _ in 0..n {
                s.push(r.below(0x80) as u8 as char);
            }
        }
        5 => {
            // every character about once
            let from = r.below(0x3000) as u32 + 1;
            for i in 0..n.min(2000) {
                s.push(char::from_u32(from + i as u32).unwrap_or('x'));
            }
        }
        6 => {
            s = fibonacci(n, 0);
        }
        _ => {
            const W: [&str; 12] =
                ["the ", "quick ", "null", "true", "{\"a\":1}", "0", "-1", "sour ", "db", "é", "meta", "\u{1F600}"];
            while s.len() < n {
                s.push_str(W[r.us(W.len())]);
            }
        }
    }
    s
}

pub fn bin(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]); n],
        1 => (0..n).map(|_| r.next() as u8).collect(),
        2 => (0..n).map(|i| i as u8).collect(),
        3 => {
            // runs of interesting lengths
            let mut v = vec![];
            while v.len() < n {
                let l = *r.pick(&[1usize, 2, 3, 4, 15, 16, 127, 128, 254, 255, 256, 257, 511, 512, 1024, 65535, 65536, 65537]);
                let b = r.below(4) as u8;
                v.resize(v.len() + l, b);
            }
            v.truncate(n);
            v
        }
        4 => {
            // sparse
            let mut v = vec![0u8; n];
            for _ in 0..r.below(5) {
                if n > 0 {
                    let i = r.us(n);
                    v[i] = r.next() as u8;
                }
            }
            v
        }
        _ => text(r, n).into_bytes(),
    }
}

pub fn int(r: &mut Rng) -> String {
    match r.below(7) {
        0 => r.below(300).to_string(),
        1 => (-(r.below(300) as i64)).to_string(),
        2 => {
            // around the powers of two
            let e = r.below(128) as u32;
            let p = 1u128 << e;
            let d = u128::from(r.below(3));
            let v = if r.coin() { p.wrapping_add(d) } else { p.wrapping_sub(d) };
            if r.coin() {
                v.to_string()
            } else {
                let i = v as i128;
                if i >= 0 {
                    if i == 0 {
                        "0".into()
                    } else {
                        format!("-{i}")
                    }
                } else {
                    i.to_string()
                }
            }
        }
        3 => (*r.pick(&[
            "0",
            "-170141183460469231731687303715884105728",
            "170141183460469231731687303715884105727",
            "170141183460469231731687303715884105728",
            "340282366920938463463374607431768211455",
            "18446744073709551615",
            "18446744073709551616",
            "-9223372036854775808",
            "-9223372036854775809",
            "9223372036854775807",
            "-1",
            "255",
            "256",
            "-128",
            "-129",
            "+5",
            "+170141183460469231731687303715884105727",
            "+0",
        ]))
        .to_string(),
        4 => {
            let v = u128::from(r.next()) << 64 | u128::from(r.next());
            (v >> r.below(128)).to_string()
        }
        5 => {
            let v = (u128::from(r.next()) << 64 | u128::from(r.next())) as i128;
            (v >> r.below(127)).to_string()
        }
        _ => format!("+{}", r.below(70_000)),
    }
}

fn f64bits(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => *r.pick(&[
            0,
            1 << 63,
            f64::INFINITY.to_bits(),
            f64::NEG_INFINITY.to_bits(),
            f64::NAN.to_bits(),
            0x7ff0_0000_0000_0001,
            0xfff8_0000_0000_1234,
            1,
            f64::MIN_POSITIVE.to_bits(),
            f64::MAX.to_bits(),
            f64::MIN.to_bits(),
            0.1f64.to_bits(),
            1.0f64.to_bits(),
            f64::EPSILON.to_bits(),
        ]),
        1 => r.next(),
        2 => ((r.below(2000) as f64 - 1000.0) / 8.0).to_bits(),
        _ => (r.next() as f64 / 3.0).to_bits(),
    }
}
fn f32bits(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => *r.pick(&[
            0,
            1 << 31,
            f32::INFINITY.to_bits(),
            f32::NEG_INFINITY.to_bits(),
            f32::NAN.to_bits(),
            0x7f80_0001,
            0xffc0_1234,
            1,
            f32::MAX.to_bits(),
            0.1f32.to_bits(),
            16_777_217f32.to_bits(),
        ]),
        1 => r.next() as u32,
        _ => ((r.below(2000) as f32 - 1000.0) / 8.0).to_bits(),
    }
}

fn days_in(y: i32, m: u32) -> u32 {
    match m {
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn time(r: &mut Rng) -> MVal {
    if r.chance(1, 12) {
        return if r.coin() {
            MVal::Time(-262_143, 1, 1, 0, 0, 0, 0)
        } else {
            MVal::Time(262_142, 12, 31, 23, 59, 59, 999_999_999)
        };
    }
    let y = match r.below(5) {
        0 => *r.pick(&[0, -1, 1, 4, 100, 400, 1582, 1899, 1900, 1969, 1970, 1999, 2000, 2038, 9999, 10_000, -9999, 32767, 32768, 65536, -32769]),
        1 => r.range(0, 520_000) as i32 - 260_000,
        _ => r.range(1900, 2100) as i32,
    };
    let m = r.range(1, 12) as u32;
    let d = match r.below(3) {
        0 => 1,
        1 => days_in(y, m),
        _ => r.range(1, u64::from(days_in(y, m))) as u32,
    };
    let h = *r.pick(&[0, 23, 12, 5]);
    let mi = *r.pick(&[0, 59, 30, 7]);
    let s = *r.pick(&[0, 59, 30, 7]);
    let n = match r.below(5) {
        0 => 0,
        1 => 999_999_999,
        2 => *r.pick(&[1, 255, 256, 65_535, 65_536, 1_000, 1_000_000]),
        3 if s == 59 => 1_000_000_000 + r.below(1_000_000_000) as u32,
        _ => r.below(1_000_000_000) as u32,
    };
    MVal::Time(y, m, d, h, mi, s, n)
}

///a float whose decimal text is read back as the same float by the JSON library the project uses
///(others are the known finding about JSON numbers)
fn stable_float(r: &mut Rng) -> serde_json::Value {
    for _ in 0..20 {
        let f = match r.below(4) {
            0 => (r.below(200_000) as f64 - 100_000.0) / 8.0,
            1 => f64::from_bits(r.next()),
            2 => r.below(100_000) as f64 / 100.0,
            _ => *r.pick(&[0.0, -0.0, 1.0, 0.5, 1e300, 1e-300, 5e-324, f64::MAX, -1.5, 1e21, 1e22, 0.1, 3.14]),
        };
        if !f.is_finite() {
            continue;
        }
        let v = serde_json::Value::from(f);
        let t = v.to_string();
        if let Ok(b) = serde_json::from_str::<serde_json::Value>(&t) {
            if b.as_f64().map(f64::to_bits) == Some(f.to_bits()) && b.to_string() == t {
                return v;
            }
        }
    }
    serde_json::Value::from(1.5)
}
fn json(r: &mut Rng, depth: u32, sz: Size) -> serde_json::Value {
    use serde_json::Value as J;
    match r.below(if depth == 0 { 8 } else { 10 }) {
        0 => J::Null,
        1 => J::Bool(r.coin()),
        2 => J::from(r.below(1000)),
        3 => match r.below(4) {
            0 => J::from(*r.pick(&[i64::MIN, -1, i64::MAX, -129, -32769])),
            1 => J::from(*r.pick(&[u64::MAX, 1 << 63, (1 << 53) + 1, 255, 256])),
            2 => J::from(r.next()),
            _ => J::from(r.next() as i64),
        },
        4 => stable_float(r),
        5..=7 => {
            let n = len(r, sz.max_len.min(2000));
            J::String(text(r, n))
        }
        8 => {
            let n = width(r, sz.width).min(40);
            J::Array((0..n).map(|_| json(r, depth - 1, sz)).collect())
        }
        _ => {
            let n = width(r, sz.width).min(40);
            J::Object((0..n).map(|_| (key(r), json(r, depth - 1, sz))).collect())
        }
    }
}

pub fn val(r: &mut Rng, depth: u32, sz: Size) -> MVal {
    let scalars = 14;
    let k = if depth == 0 { r.below(scalars) } else { r.below(scalars + 3) };
    match k {
        0 => MVal::Char(ch(r) as u32),
        1 => {
            let n = len(r, sz.max_len);
            MVal::Str(text(r, n))
        }
        2 => {
            let n = len(r, sz.max_len);
            MVal::Bin(Bytes(bin(r, n)))
        }
        3 => MVal::Bool(r.coin()),
        4 => MVal::Int(int(r)),
        5 => MVal::Cart(int(r), int(r)),
        6 => MVal::Polar(f64bits(r), f64bits(r)),
        7 => time(r),
        8 => {
            let d = if r.chance(1, 30) { 40 } else { depth.max(1) + 1 };
            let s = if d == 40 { Size { width: 1, max_len: 4, ..sz } } else { sz };
            MVal::Json(json(r, d, s).to_string())
        }
        9 => MVal::Null,
        10 => MVal::F32(f32bits(r)),
        11 => MVal::F64(f64bits(r)),
        12 => {
            let t = chrono_tz::TZ_VARIANTS;
            MVal::Tz(t[r.us(t.len())].name().to_string())
        }
        13 => {
            if r.coin() {
                let x = r.next().to_le_bytes();
                MVal::V4(*r.pick(&[[0; 4], [255; 4], [127, 0, 0, 1], [x[0], x[1], x[2], x[3]]]))
            } else {
                let mut x = [0u8; 16];
                match r.below(4) {
                    0 => x[15] = 1,
                    1 => x = [255; 16],
                    2 => {}
                    _ => {
                        x[..8].copy_from_slice(&r.next().to_le_bytes());
                        x[8..].copy_from_slice(&r.next().to_le_bytes());
                    }
                }
                MVal::V6(x)
            }
        }
        14 => {
            let n = width(r, sz.width);
            let s = shrunk(sz, n);
            MVal::Arr((0..n).map(|_| val(r, depth - 1, s)).collect())
        }
        15 => {
            let n = width(r, sz.width);
            let s = shrunk(sz, n);
            MVal::Map((0..n).map(|_| (key(r), val(r, depth - 1, s))).collect())
        }
        _ => {
            // deep and thin
            let n = r.range(2, if sz.depth > 2 { 100 } else { 6 });
            let mut v = val(r, 0, SMALL);
            for _ in 0..n {
                v = if r.coin() { MVal::Arr(vec![v]) } else { MVal::Map(BTreeMap::from([(key(r), v)])) };
            }
            v
        }
    }
}
fn width(r: &mut Rng, w: u64) -> u64 {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 if w > 255 => *r.pick(&[127, 128, 254, 255, 256, 257]),
        3 => r.range(0, w),
        _ => r.range(0, w.min(5)),
    };
    n.min(spend(n * 16) / 16 + 3)
}
fn shrunk(sz: Size, n: u64) -> Size {
    if n > 10 {
        SMALL
    } else {
        Size { max_len: sz.max_len / 4 + 4, width: sz.width / 4 + 1, depth: sz.depth }
    }
}

pub fn key(r: &mut Rng) -> String {
    const K: [&str; 20] = [
        "", "a", "b", "A", "key", "key ", " key", "key2", "k&b=c", "k=v", "a+b", "a b", "%41", "é", "ключ", "\u{1F600}",
        "a/b", "..", "nul\0byte", "line\nfeed",
    ];
    match r.below(10) {
        0..=5 => (*r.pick(&K)).to_string(),
        6 => {
            let n = r.range(1, 12) as usize;
            text(r, n)
        }
        7 => {
            let n = len(r, 600);
            text(r, n)
        }
        _ => format!("k{}", r.below(20)),
    }
}

pub fn content(r: &mut Rng, sz: Size, n: u64) -> BTreeMap<String, MVal> {
    let s = shrunk(sz, n);
    (0..n).map(|i| (if r.chance(1, 3) { key(r) } else { format!("c{i}") }, val(r, s.depth.min(2), s))).collect()
}

///names a daemon must accept
pub fn good_name(r: &mut Rng) -> String {
    const N: [&str; 40] = [
        "", "a", "b", "A", "db", "Db", "DB", "db1", "db2", "db1.sdb", "db.sdb", "meta.sdb", "Meta", "META", "meta2", "ameta", "meta ",
        " meta", ".", "..", "...", "a b", "a+b", "a&b=c", "%2e%2e", "%", "db%20", "a\\b", "C:", "con", "save", "save.tmp", "tmp",
        "new\nline", "tab\t", "\u{7f}", "\u{1}", "'\"", "existing_dbs", ".hidden",
    ];
    match r.below(10) {
        0..=6 => (*r.pick(&N)).to_string(),
        7 => {
            let n = *r.pick(&[1usize, 2, 100, 246, 247, 248, 249, 250, 251]);
            "n".repeat(n)
        }
        8 => {
            let n = r.range(1, 20);
            (0..n)
                .map(|_| loop {
                    let c = r.range(1, 127) as u8 as char;
                    if c != '/' {
                        break c;
                    }
                })
                .collect::<String>()
        }
        _ => format!("db{}", r.below(12)),
    }
}
///names a daemon must refuse to create
pub fn bad_name(r: &mut Rng) -> String {
    const N: [&str; 26] = [
        "meta", "/", "../x", "../../etc/passwd", "/etc/passwd", "/mnt/data/a", "a/b", "a/", "/a", "..//..", "./a", "nul\0", "\0",
        "é", "ключ", "\u{1F600}", "db\u{e9}", "a/../b", "../data/db1", "../data/meta", "sub/dir/deep", "x/../../../tmp/y",
        "\u{ff0f}", "../meta", "././meta", "a\0/b",
    ];
    match r.below(8) {
        0..=5 => (*r.pick(&N)).to_string(),
        6 => "n".repeat(*r.pick(&[252usize, 253, 255, 256, 300, 1000, 4096, 5000])),
        _ => {
            let mut s = String::new();
            for _ in 0..r.range(1, 6) {
                s.push_str(*r.pick(&["../", "a/", "./", "/", "mnt/", "data/", "meta"]));
            }
            if s == "meta" || s.contains('/') {
                s
            } else {
                "a/b".into()
            }
        }
    }
}
///does the daemon have to accept it?
pub fn acceptable(name: &str) -> bool {
    name != "meta" && name.is_ascii() && name.len() <= 251 && !name.contains('/') && !name.contains('\0')
}
