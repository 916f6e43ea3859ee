//! Inputs of the listed findings: each is tried by the check of its property.
use crate::bytes::Bytes;
use crate::gen::{self, golden_base, grace, look, simple_epoch};
use crate::mval::MVal;
use crate::plan::*;
use crate::rng::Rng;

///(property, name in the list, the plan which shows it, the tags it shows up as)
pub struct Probe {
    pub property: &'static str,
    pub name: &'static str,
    pub plan: Plan,
    pub tags: &'static [&'static str],
}

///the serialised form of a JSON value with exactly that text
fn json_body(text: &str) -> Vec<u8> {
    let stand_in = format!("\"{}\"", "a".repeat(text.len() - 2));
    let mut b = MVal::Json(stand_in.clone()).to_value().ser(None);
    let s = stand_in.as_bytes();
    if let Some(p) = b.windows(s.len()).position(|w| w == s) {
        b[p..p + s.len()].copy_from_slice(text.as_bytes());
    }
    b
}

fn float_plan(text: &str, restart: bool) -> Plan {
    let mut r = Rng::new(99);
    let put = |db: &str| Op::PutValueBody { db: db.into(), key: "k".into(), body: Bytes(json_body(text)), val: MVal::Json(text.into()) };
    let steps = vec![gen::step(put("floats")), gen::step(Op::GetVal { db: "floats".into(), key: "k".into() })];
    let c = Client { kind: ClientKind::Http, start: 0, timeout: 100 * gen::S, steps, linger: false };
    let e = simple_epoch(vec![c], grace(&mut r, 0));
    let mut es = vec![e];
    if restart {
        es.push(look(&mut r));
    }
    golden_base(&mut r, "known", 0, es)
}

pub fn probes() -> Vec<Probe> {
    vec![
        Probe { property: "P05", name: "json-float-drift", plan: float_plan("123456789.12345679", false), tags: &["value-altered", "lin-read"] },
        Probe { property: "P04", name: "json-float-drift", plan: float_plan("6.934698245112694e276", true), tags: &["value-altered", "lin-read", "graceful"] },
    ]
}
