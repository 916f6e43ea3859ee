//! Data recorded with the version this was written for (committed under golden/): later versions must read it.
use crate::bytes::Bytes;
use crate::gen;
use crate::kern::*;
use crate::mval::MVal;
use crate::plan::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StoreBody {
    pub content: Content,
    ///one for every way to compress it
    pub bodies: Vec<Bytes>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ValueBody {
    pub val: MVal,
    pub body: Bytes,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Set {
    pub preset: Preset,
    pub stores: Vec<StoreBody>,
    pub values: Vec<ValueBody>,
}

static mut SETS: Vec<Set> = vec![];

#[allow(static_mut_refs)]
pub fn sets() -> &'static Vec<Set> {
    unsafe { &SETS }
}
pub fn load(dir: &str) {
    let mut names: Vec<_> = match std::fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok().map(|e| e.path())).filter(|p| p.extension().is_some_and(|e| e == "json")).collect(),
        Err(_) => vec![],
    };
    names.sort();
    let v = names
        .iter()
        .map(|n| crate::mval::from_json(&std::fs::read(n).expect("golden file")))
        .collect();
    unsafe { SETS = v };
}

pub fn plan(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let s = &sets()[(run as usize) % sets().len()];
    let mut steps = vec![];
    for i in 0..r.range(1, 4) {
        let db = format!("new{i}");
        if r.coin() && !s.stores.is_empty() {
            let b = r.pick(&s.stores);
            let body = r.pick(&b.bodies).clone();
            steps.push(gen::step(Op::PutBody { db: db.clone(), body, content: b.content.clone(), over: r.coin() }));
        } else {
            for j in 0..r.range(1, 6) {
                let b = r.pick(&s.values);
                let key = format!("k{j}");
                steps.push(gen::step(Op::PutValueBody { db: db.clone(), key: key.clone(), body: b.body.clone(), val: b.val.clone() }));
                steps.push(gen::step(Op::GetVal { db: db.clone(), key }));
            }
        }
        steps.push(gen::step(Op::GetDb { db }));
    }
    let mut c = Client { kind: ClientKind::Http, start: 0, timeout: 100 * gen::S, steps, linger: false };
    gen::spice_client(r, &mut c, 50);
    let end = gen::grace(r, 0);
    let mut first = gen::simple_epoch(vec![c], end);
    if r.coin() {
        first.faults.push(Fault::Short { from: 0, to: gen::S, ops: OP_READ, percent: *r.pick(&[30, 100]) });
    }
    let l = gen::look(r);
    let mut p = gen::golden_base(r, profile, run, vec![first, l]);
    p.preset = Some(s.preset.clone());
    p.k.max_steps = 20_000_000;
    p.k.alloc_period = p.k.alloc_period.max(1000);
    p.k.stall_num = 0;
    if p.k.net.frag > 0 && p.k.net.frag < 64 {
        p.k.net.frag = 64;
    }
    p
}

///writes the data; only ever done with the version it stands for
#[cfg(feature = "goldengen")]
pub fn generate(dir: &str) {
    use crate::vals::{self, LARGE, MEDIUM, SMALL};
    use sourisdb::store::Store;
    use sourisdb::types::binary::{huffman::huffman, lz::lz, rle::rle, BinaryCompression, BinaryData};
    use sourisdb::types::integer::{Integer};
    use sourisdb::utilities::cursor::Cursor;
    use sourisdb::values::Value;
    std::fs::create_dir_all(dir).unwrap();
    let variants = |c: &Content| -> Vec<Bytes> {
        let b = crate::client::to_store(c).ser();
        let ty = b[8];
        let raw = {
            let rest = &b[9..];
            let mut cu = Cursor::new(&rest);
            BinaryData::deser(BinaryCompression::try_from(ty & 0x7f).unwrap(), &mut cu).unwrap().0
        };
        let mut vanilla = Integer::usize(raw.len()).ser().1;
        vanilla.extend(&raw);
        let mut out = vec![Bytes(b.clone())];
        for (t, x) in [(0u8, vanilla), (1, rle(&raw)), (2, lz(&raw)), (3, huffman(&raw))] {
            if x.len() > 20_000 {
                continue;
            }
            let mut v = b"SOURISDB".to_vec();
            v.push((ty & 0x80) | t);
            v.extend(x);
            let back = Store::deser(&v).map(|s| crate::client::of_store(&s));
            if back.ok().as_ref() == Some(&crate::mval::norm_content(c)) {
                out.push(Bytes(v));
            } else {
                eprintln!("variant {t} of a store is not read back");
            }
        }
        out
    };
    for i in 0..24u64 {
        let mut r = Rng::new(4242 + i);
        let r = &mut r;
        let mut content = BTreeMap::new();
        let mut files = vec![];
        for j in 0..r.range(1, 5) {
            let n = if r.coin() { vals::good_name(r) } else { format!("db{j}") };
            let m = if i == 3 { 300 } else { r.below(7) };
            let c = vals::content(r, if i % 8 == 7 && j == 0 { LARGE } else { MEDIUM }, m);
            content.insert(n, c);
        }
        for (n, c) in &content {
            let v = variants(c);
            let b = r.pick(&v).clone();
            files.push((format!("{n}.sdb"), b));
        }
        let meta = Store::new([(
            "existing_dbs".to_string(),
            Value::Array(content.keys().map(|x| Value::String(x.clone())).collect()),
        )]);
        files.push(("meta.sdb".into(), Bytes(meta.ser())));
        let mut stores = vec![];
        for _ in 0..3 {
            let m = r.below(9);
            let c = vals::content(r, *r.clone().pick(&[SMALL, MEDIUM]), m);
            stores.push(StoreBody { bodies: variants(&c), content: c });
        }
        let mut values = vec![];
        for _ in 0..40 {
            let val = vals::val(r, 2, if r.clone().chance(1, 3) { MEDIUM } else { SMALL });
            values.push(ValueBody { body: Bytes(val.to_value().ser(None)), val });
        }
        // compressed texts come in the middle of stores only
        let s = Set { preset: Preset { files, content }, stores, values };
        std::fs::write(format!("{dir}/set{i:02}.json"), serde_json::to_vec(&s).unwrap()).unwrap();
    }
}
