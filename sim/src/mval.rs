//! Our own idea of a value, independent of the library's equality and hashing.
use crate::bytes::Bytes;
use chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use serde::{Deserialize, Serialize};
use sourisdb::types::binary::BinaryData;
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::Integer;
use sourisdb::values::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum MVal {
    Char(u32),
    Str(String),
    Bin(Bytes),
    Bool(bool),
    ///decimal
    Int(String),
    ///decimal real and imaginary part
    Cart(String, String),
    ///bits
    Polar(u64, u64),
    ///year, month, day, hour, minute, second, nanosecond
    Time(i32, u32, u32, u32, u32, u32, u32),
    ///compact text with sorted keys
    Json(String),
    Null,
    F32(u32),
    F64(u64),
    Arr(Vec<MVal>),
    Map(BTreeMap<String, MVal>),
    Tz(String),
    V4([u8; 4]),
    V6([u8; 16]),
}

fn int(s: &str) -> Integer {
    if s.starts_with('-') {
        Integer::from(s.parse::<i128>().expect("i128"))
    } else if let Some(x) = s.strip_prefix('+') {
        // stored as a signed number
        Integer::from(x.parse::<i128>().expect("i128"))
    } else {
        Integer::from(s.parse::<u128>().expect("u128"))
    }
}
fn int_text(s: &str) -> String {
    s.trim_start_matches('+').to_string()
}
fn of_int(i: Integer) -> String {
    match (u128::try_from(i), i.is_negative()) {
        (Ok(u), false) => u.to_string(),
        _ => i128::try_from(i).map_or_else(|_| "out of range".to_string(), |x| x.to_string()),
    }
}

impl MVal {
    pub fn to_value(&self) -> Value {
        match self {
            MVal::Char(c) => Value::Character(char::from_u32(*c).expect("char")),
            MVal::Str(s) => Value::String(s.clone()),
            MVal::Bin(b) => Value::Binary(BinaryData(b.0.clone())),
            MVal::Bool(b) => Value::Boolean(*b),
            MVal::Int(s) => Value::Integer(int(s)),
            MVal::Cart(a, b) => Value::Imaginary(Imaginary::CartesianForm { real: int(a), imaginary: int(b) }),
            MVal::Polar(a, b) => Value::Imaginary(Imaginary::PolarForm {
                modulus: f64::from_bits(*a),
                argument: f64::from_bits(*b),
            }),
            MVal::Time(y, mo, d, h, mi, s, n) => Value::Timestamp(NaiveDateTime::new(
                NaiveDate::from_ymd_opt(*y, *mo, *d).expect("date"),
                NaiveTime::from_hms_nano_opt(*h, *mi, *s, *n).expect("time"),
            )),
            MVal::Json(s) => Value::JSON(serde_json::from_str(s).expect("json")),
            MVal::Null => Value::Null(()),
            MVal::F32(b) => Value::SingleFloat(f32::from_bits(*b)),
            MVal::F64(b) => Value::DoubleFloat(f64::from_bits(*b)),
            MVal::Arr(v) => Value::Array(v.iter().map(MVal::to_value).collect()),
            MVal::Map(m) => Value::Map(m.iter().map(|(k, v)| (k.clone(), v.to_value())).collect()),
            MVal::Tz(s) => Value::Timezone(s.parse().expect("timezone")),
            MVal::V4(a) => Value::Ipv4Addr((*a).into()),
            MVal::V6(a) => Value::Ipv6Addr((*a).into()),
        }
    }
    pub fn of(v: &Value) -> MVal {
        match v {
            Value::Character(c) => MVal::Char(*c as u32),
            Value::String(s) => MVal::Str(s.clone()),
            Value::Binary(b) => MVal::Bin(Bytes(b.0.clone())),
            Value::Boolean(b) => MVal::Bool(*b),
            Value::Integer(i) => MVal::Int(of_int(*i)),
            Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => {
                MVal::Cart(of_int(*real), of_int(*imaginary))
            }
            Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => {
                MVal::Polar(modulus.to_bits(), argument.to_bits())
            }
            Value::Timestamp(t) => MVal::Time(
                t.date().year(),
                t.date().month(),
                t.date().day(),
                t.time().hour(),
                t.time().minute(),
                t.time().second(),
                t.time().nanosecond(),
            ),
            Value::JSON(j) => MVal::Json(j.to_string()),
            Value::Null(()) => MVal::Null,
            Value::SingleFloat(f) => MVal::F32(f.to_bits()),
            Value::DoubleFloat(f) => MVal::F64(f.to_bits()),
            Value::Array(a) => MVal::Arr(a.iter().map(MVal::of).collect()),
            Value::Map(m) => MVal::Map(m.iter().map(|(k, v)| (k.clone(), MVal::of(v))).collect()),
            Value::Timezone(t) => MVal::Tz(t.name().to_string()),
            Value::Ipv4Addr(a) => MVal::V4(a.octets()),
            Value::Ipv6Addr(a) => MVal::V6(a.octets()),
        }
    }
    ///the form a value has after being stored: the sign marker of integers is not content
    pub fn norm(&self) -> MVal {
        match self {
            MVal::Int(s) => MVal::Int(int_text(s)),
            MVal::Cart(a, b) => MVal::Cart(int_text(a), int_text(b)),
            MVal::Arr(v) => MVal::Arr(v.iter().map(MVal::norm).collect()),
            MVal::Map(m) => MVal::Map(m.iter().map(|(k, v)| (k.clone(), v.norm())).collect()),
            v => v.clone(),
        }
    }
    pub fn short(&self) -> String {
        let s = format!("{self:?}");
        if s.chars().count() > 120 {
            let h: String = s.chars().take(100).collect();
            format!("{h}…({} bytes)", s.len())
        } else {
            s
        }
    }
}

pub fn norm_content(c: &BTreeMap<String, MVal>) -> BTreeMap<String, MVal> {
    c.iter().map(|(k, v)| (k.clone(), v.norm())).collect()
}

///our own files hold values of any depth
pub fn from_json<T: serde::de::DeserializeOwned>(b: &[u8]) -> T {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    T::deserialize(&mut d).expect("a file of ours")
}
