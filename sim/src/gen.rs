//! Plans: one generator per property. A seed gives exactly one plan.
use crate::bytes::Bytes;
use crate::json::J;
use crate::kern::*;
use crate::mouse::{Cmd, Where, PINNED};
use crate::mval::MVal;
use crate::plan::*;
use crate::rng::{splitmix, Rng};
use crate::vals::{self, Size, LARGE, MEDIUM, SMALL};
use std::collections::BTreeMap;

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const S: u64 = 1_000_000_000;
pub const SCRATCH: &str = "scratch";

fn mix(profile: &str, seed: u64, run: u64) -> u64 {
    let mut h = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ run.wrapping_mul(0xD134_2543_DE82_EF95);
    for b in profile.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    splitmix(&mut h)
}

fn kcfg(r: &mut Rng) -> KCfg {
    let strategy = match r.below(10) {
        0 | 1 => Strategy::Sticky,
        2..=6 => Strategy::Random { per_mille: *r.pick(&[3, 20, 60, 150, 400]) },
        _ => Strategy::Pct { depth: r.range(1, 9), len: *r.pick(&[800, 2500, 8000]) },
    };
    let alloc_period = match r.below(6) {
        0 => 0,
        1 => r.range(8, 40),
        _ => r.logrange(40, 2000),
    };
    let (lat, jitter) = *r.pick(&[(20 * US, 5 * US), (50 * US, 50 * US), (300 * US, 2 * MS), (US, US)]);
    let frag = if r.chance(1, 4) { *r.pick(&[1, 7, 64, 500, 1460]) } else { 0 };
    let disk = match r.below(4) {
        0 => DiskCfg { op_min: US, op_max: 5 * US, sync_min: US, sync_max: 10 * US },
        1 => DiskCfg { op_min: 50 * US, op_max: 3 * MS, sync_min: MS, sync_max: 60 * MS },
        _ => DiskCfg { op_min: 10 * US, op_max: 200 * US, sync_min: 100 * US, sync_max: 20 * MS },
    };
    KCfg {
        seed: r.next(),
        strategy,
        alloc_period,
        stall_num: if r.chance(1, 4) { r.range(10, 200) } else { 0 },
        stall_max: *r.pick(&[MS, 50 * MS, 600 * MS]),
        tick_max: *r.pick(&[200, 2000, 20_000]),
        quiet_after: 3_000_000,
        max_steps: 6_000_000,
        net: NetCfg { lat, jitter, frag, cap: *r.pick(&[65536, 65536, 4096, 1 << 20]) },
        disk,
    }
}

pub fn step(op: Op) -> Step {
    Step { delay: 0, op, net: NetOpts::default() }
}

///the things the clients of a run talk about
pub struct Pool {
    pub names: Vec<String>,
    pub bad: Vec<String>,
    pub keys: Vec<String>,
    pub vals: Vec<MVal>,
    pub sz: Size,
    pub fresh: u64,
    ///of 100 operations that many are reads
    pub reads: u64,
    pub bad_percent: u64,
    pub max_content: u64,
    pub big_percent: u64,
    pub removals: u64,
    ///of 100 values that many are maps
    pub maps: u64,
}
impl Pool {
    pub fn new(r: &mut Rng, names: usize, keys: usize) -> Pool {
        let mut n: Vec<String> = vec![];
        while n.len() < names {
            let x = if r.chance(1, 2) { format!("db{}", n.len()) } else { vals::good_name(r) };
            if !n.contains(&x) && x != SCRATCH {
                n.push(x);
            }
        }
        let mut ks: Vec<String> = vec![];
        while ks.len() < keys {
            let x = if r.chance(1, 2) { format!("k{}", ks.len()) } else { vals::key(r) };
            if !ks.contains(&x) {
                ks.push(x);
            }
        }
        Pool {
            names: n,
            bad: vec![],
            keys: ks,
            vals: vec![],
            sz: SMALL,
            fresh: 0,
            reads: *r.pick(&[20, 40, 60]),
            bad_percent: 0,
            max_content: 4,
            big_percent: 0,
            removals: 20,
            maps: *r.pick(&[0, 5, 30]),
        }
    }
    pub fn name(&self, r: &mut Rng) -> String {
        if !self.bad.is_empty() && r.chance(self.bad_percent, 100) {
            return r.pick(&self.bad).clone();
        }
        r.pick(&self.names).clone()
    }
    pub fn key(&self, r: &mut Rng) -> String {
        r.pick(&self.keys).clone()
    }
    ///mostly distinguishable ones
    pub fn val(&mut self, r: &mut Rng) -> MVal {
        self.fresh += 1;
        let big = r.chance(self.big_percent, 100);
        if r.chance(self.maps, 100) {
            // small ones with the same keys, which could be mixed up
            let mut m = BTreeMap::new();
            for k in ["a", "b", "c"] {
                if r.coin() {
                    self.fresh += 1;
                    m.insert(k.to_string(), MVal::Int(self.fresh.to_string()));
                }
            }
            return MVal::Map(m);
        }
        match r.below(4) {
            _ if big => vals::val(r, LARGE.depth, LARGE),
            0 => vals::val(r, self.sz.depth, self.sz),
            1 => MVal::Str(format!("v{}", self.fresh)),
            _ => MVal::Int(self.fresh.to_string()),
        }
    }
    pub fn content(&mut self, r: &mut Rng) -> Content {
        let n = if r.chance(self.big_percent, 300) { *r.pick(&[100, 127, 128, 255, 256, 300, 1000]) } else { r.below(self.max_content + 1) };
        (0..n)
            .map(|i| {
                let kx = if i < self.keys.len() as u64 && r.chance(3, 4) { self.keys[i as usize].clone() } else { format!("c{i}") };
                let v = if n > 20 { MVal::Int((self.fresh * 1000 + i).to_string()) } else { self.val(r) };
                (kx, v)
            })
            .collect()
    }
    pub fn op(&mut self, r: &mut Rng, kind: ClientKind) -> Op {
        let lib = matches!(kind, ClientKind::Async | ClientKind::Sync);
        let db = self.name(r);
        if r.chance(self.reads, 100) {
            return match r.below(if lib { 4 } else { 6 }) {
                0 | 1 => Op::GetDb { db },
                2 | 3 => Op::Names,
                _ => Op::GetVal { db, key: self.key(r) },
            };
        }
        if r.chance(self.removals, 100) {
            return match r.below(if lib { 5 } else { 6 }) {
                0..=2 => Op::RmDb { db },
                3 | 4 => Op::RmKv { db, key: self.key(r) },
                _ => Op::ClearDb { db },
            };
        }
        match r.below(10) {
            0 | 1 => Op::AddDb { db, over: r.chance(1, 3) },
            2 | 3 => Op::AddContent { db, over: r.coin(), content: self.content(r) },
            _ => Op::AddKv { db, key: self.key(r), val: self.val(r), create: r.chance(3, 4), over: r.chance(2, 3) },
        }
    }
}

fn delay(r: &mut Rng) -> u64 {
    match r.below(6) {
        0..=2 => 0,
        3 => r.logrange(US, MS),
        4 => r.logrange(MS, 300 * MS),
        _ => r.logrange(US, 10 * MS),
    }
}

fn client(r: &mut Rng, p: &mut Pool, kind: ClientKind, n: u64, start: u64) -> Client {
    let steps = (0..n).map(|_| Step { delay: delay(r), op: p.op(r, kind), net: NetOpts::default() }).collect();
    Client { kind, start, timeout: 100 * S, steps, linger: r.chance(1, 4) }
}

///a time when something interesting happens: the start, a periodic save, or anything
fn moment(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 | 1 => r.below(3 * MS),
        2 => (10 * r.range(1, 3)) * S - 20 * MS + r.below(150 * MS),
        _ => r.below(22 * S),
    }
}

fn net_opts(r: &mut Rng) -> NetOpts {
    let mut o = NetOpts::default();
    if r.chance(1, 4) {
        o.pieces = *r.pick(&[2, 3, 10, 1000]);
        o.pause = *r.pick(&[0, US, 30 * US, MS]);
    }
    o.chunked = r.chance(1, 6);
    o.fresh_conn = r.chance(1, 6);
    o.encode_all = r.chance(1, 8);
    if r.chance(1, 10) {
        o.slow_read = *r.pick(&[10 * US, MS]);
    }
    o.expect_continue = r.chance(1, 20);
    o
}
fn spice(r: &mut Rng, c: &mut Client, percent: u64) {
    if c.kind != ClientKind::Http {
        return;
    }
    for s in &mut c.steps {
        if r.chance(percent, 100) {
            s.net = net_opts(r);
        }
    }
}
fn abort(r: &mut Rng) -> Abort {
    match r.below(7) {
        0 | 1 => Abort::AfterBytes(r.logrange(1, 400)),
        2 => Abort::AfterSend(0),
        3 => Abort::AfterSend(r.logrange(US, 2 * MS)),
        4 => Abort::ResetAfterSend(0),
        5 => Abort::ResetAfterSend(r.logrange(US, 2 * MS)),
        _ => Abort::HalfClose,
    }
}

fn epoch(clients: Vec<Client>, end: End) -> Epoch {
    Epoch {
        damage: vec![],
        faults: vec![],
        clients,
        end,
        audit: true,
        start_limit: 60 * S,
        may_refuse: false,
        crash_in_start: false,
    }
}
fn sig(r: &mut Rng) -> i32 {
    if r.coin() {
        libc::SIGTERM
    } else {
        libc::SIGINT
    }
}
fn graceful(r: &mut Rng, d: u64) -> End {
    End::Graceful { sig: sig(r), when: When::Done(d) }
}
///only looks
fn last(r: &mut Rng) -> Epoch {
    epoch(vec![], graceful(r, 0))
}

fn plan(r: &mut Rng, profile: &str, run: u64, epochs: Vec<Epoch>) -> Plan {
    Plan {
        profile: profile.into(),
        run,
        k: kcfg(r),
        base: *r.pick(&[BaseKind::Env, BaseKind::Env, BaseKind::EnvSlash, BaseKind::EnvDeep, BaseKind::Root, BaseKind::Home]),
        workers: r.range(1, 4) as u32,
        cpus: r.range(1, 4) as u32,
        log: if r.chance(1, 8) { Some((*r.pick(&["trace", "debug", "sourisd=trace", "off"])).to_string()) } else { None },
        wall: *r.pick(&[1_700_000_000 * S, 1_700_000_000 * S, 4_102_444_800 * S, 86_400 * S]),
        preset: None,
        epochs,
    }
}

fn kinds(r: &mut Rng) -> ClientKind {
    match r.below(6) {
        0 => ClientKind::Async,
        1 => ClientKind::Sync,
        _ => ClientKind::Http,
    }
}
///a crowd that meets at some moments
fn crowd(r: &mut Rng, p: &mut Pool, clients: u64, steps: u64, same: bool) -> Vec<Client> {
    let m = moment(r);
    (0..clients)
        .map(|_| {
            let kind = kinds(r);
            let start = if same { m + r.below(300 * US) } else { moment(r) };
            client(r, p, kind, steps, start)
        })
        .collect()
}

fn crash_when(r: &mut Rng, ops: u64) -> When {
    match r.below(8) {
        0..=4 => When::FsOp(r.range(1, ops), r.below(3) as u8),
        5 => When::At(r.range(S, 33 * S)),
        6 => When::Acks(r.range(1, 30), r.logrange(US, 12 * S)),
        _ => When::Step(r.range(300, 6000)),
    }
}

fn disk_fault(r: &mut Rng, from: u64, to: u64) -> Fault {
    const WR: u32 = OP_CREATE | OP_WRITE | OP_FSYNC | OP_RENAME | OP_FSYNCDIR | OP_TRUNC;
    match r.below(8) {
        0 => Fault::Short { from, to, ops: OP_WRITE | OP_READ, percent: r.range(5, 100) },
        1 => Fault::Disk { from, to, ops: OP_CREATE | OP_WRITE | OP_MKDIR, errno: libc::ENOSPC, percent: r.range(5, 100), path: None, max: u64::MAX },
        2 => Fault::Disk { from, to, ops: *r.pick(&[OP_FSYNC, OP_FSYNC | OP_FSYNCDIR, OP_RENAME, OP_WRITE, OP_CREATE | OP_OPEN, OP_FSYNCDIR]), errno: libc::EIO, percent: r.range(10, 100), path: None, max: r.range(1, 6) },
        3 => Fault::Disk { from, to, ops: OP_UNLINK, errno: *r.pick(&[libc::EIO, libc::EROFS, libc::EACCES]), percent: r.range(10, 100), path: None, max: r.range(1, 6) },
        4 => Fault::Disk { from, to, ops: WR | OP_OPEN | OP_READ, errno: *r.pick(&[libc::EIO, libc::EROFS, libc::EMFILE, libc::EDQUOT]), percent: r.range(5, 100), path: None, max: u64::MAX },
        5 => Fault::Disk { from, to, ops: OP_WRITE | OP_OPEN | OP_CREATE | OP_READ, errno: libc::EINTR, percent: r.range(5, 40), path: None, max: 20 },
        _ => Fault::Disk { from, to, ops: WR, errno: libc::EIO, percent: r.range(5, 60), path: None, max: u64::MAX },
    }
}
///removing files fails for a while
fn unlink_fault(r: &mut Rng) -> Fault {
    let from = if r.coin() { 0 } else { r.logrange(MS, 20 * S) };
    Fault::Disk {
        from,
        to: from + r.logrange(10 * MS, 60 * S),
        ops: OP_UNLINK,
        errno: *r.pick(&[libc::EIO, libc::EROFS, libc::EACCES, libc::EBUSY]),
        percent: r.range(20, 100),
        path: None,
        max: r.range(1, 6),
    }
}
fn disk_stall(r: &mut Rng, from: u64, to: u64) -> Fault {
    Fault::DiskStall {
        from,
        to,
        ops: *r.pick(&[OP_FSYNC | OP_FSYNCDIR, OP_WRITE, OP_RENAME, OP_UNLINK, u32::MAX]),
        add: r.logrange(10 * MS, 4 * S),
    }
}
fn net_fault(r: &mut Rng, at: u64) -> Fault {
    let conn = if r.chance(2, 3) { Some(r.us(6)) } else { None };
    match r.below(9) {
        6.. => {
            let back = if r.coin() { r.range(1, 12) } else { r.logrange(1, 3000) } as usize;
            Fault::NetCut { conn, dir: if r.chance(3, 4) { 1 } else { 0 }, nth: r.below(8), back, fin: r.coin() }
        }
        0 | 1 => Fault::NetStall { from: at, to: at + r.logrange(MS, 20 * S), conn },
        2 | 3 => Fault::NetReset { at, conn },
        4 => Fault::NetLat { from: at, to: at + r.logrange(MS, 10 * S), add: r.logrange(MS, 2 * S) },
        _ => Fault::Accept { from: at, to: at + r.logrange(MS, 5 * S), errno: *r.pick(&[libc::EMFILE, libc::ECONNABORTED, libc::ENFILE]), max: r.range(1, 10) },
    }
}
fn clock(r: &mut Rng) -> Fault {
    Fault::ClockJump { at: r.below(30 * S), delta: *r.pick(&[-3600, -5, 5, 3600, 86_400 * 365]) * S as i64 }
}

// ------------------------------------------------------------------------------------------------ profiles

///many clients, few names: interleavings
fn concurrency(r: &mut Rng, profile: &str, run: u64) -> Plan {
    if r.chance(1, 4) {
        return freshness(r, profile, run);
    }
    let mut p = {
        let n = r.range(1, 3) as usize;
        let kx = r.range(1, 4) as usize;
        Pool::new(r, n, kx)
    };
    p.removals = *r.pick(&[10, 30, 50]);
    p.big_percent = if r.chance(1, 5) { 10 } else { 0 };
    if r.chance(1, 6) {
        p.bad = vec![vals::bad_name(r)];
        p.bad_percent = 15;
    }
    let n = r.range(2, 5);
    let steps = r.range(2, if n > 3 { 6 } else { 10 });
    let same = r.chance(4, 5);
    let mut cl = crowd(r, &mut p, n, steps, same);
    if r.chance(1, 3) {
        for c in &mut cl {
            spice(r, c, 20);
        }
    }
    let mut e = epoch(cl, graceful(r, 0));
    if r.chance(1, 5) {
        // requests wait for a slow save
        let from = 2 * S;
        e.faults.push(disk_stall(r, from, from + 30 * S));
    }
    if r.chance(1, 10) {
        e.faults.push(clock(r));
    }
    let mut es = vec![e];
    if r.chance(1, 2) {
        es.push(last(r));
    }
    plan(r, profile, run, es)
}

fn one_restart(r: &mut Rng, p: &mut Pool, n: u64, steps: u64, restarts: u64) -> Vec<Epoch> {
    let mut es = vec![];
    for _ in 0..=restarts {
        let cl = crowd(r, p, n, steps, true);
        let d = *r.pick(&[0, 0, US, MS, 9_990 * MS, 10 * S, 12 * S]);
        es.push(epoch(cl, graceful(r, d)));
    }
    es.push(last(r));
    es
}

///what is stored and how it comes back
fn fidelity(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 3) as usize;
        let kx = r.range(2, 8) as usize;
        Pool::new(r, n, kx)
    };
    let sz = *r.pick(&[MEDIUM, MEDIUM, LARGE]);
    let n = r.range(3, 10);
    let kind = kinds(r);
    let mut steps = vec![];
    for _ in 0..n {
        let db = p.name(r);
        match r.below(4) {
            0 => {
                let m = if r.chance(1, 8) { *r.pick(&[127u64, 128, 255, 256, 257, 600]) } else { r.below(8) };
                let c = vals::content(r, sz, m);
                steps.push(step(Op::AddContent { db: db.clone(), over: r.coin(), content: c }));
            }
            _ => {
                let key = if r.coin() { vals::key(r) } else { p.key(r) };
                let val = vals::val(r, sz.depth, sz);
                steps.push(step(Op::AddKv { db: db.clone(), key: key.clone(), val, create: true, over: true }));
                if kind == ClientKind::Http && r.coin() {
                    steps.push(step(Op::GetVal { db: db.clone(), key }));
                }
            }
        }
        if r.chance(1, 3) {
            steps.push(step(Op::GetDb { db }));
        }
    }
    if run == 9 || r.chance(1, 3000) {
        // the deepest trees of codes that fit into a reasonable text
        let n = if run == 9 { 120_000 } else { r.logrange(1000, 120_000) as usize };
        let s = vals::fibonacci(n, if run == 9 { 12 } else { *r.pick(&[0, 12]) });
        let b = MVal::Bin(Bytes(s.clone().into_bytes()));
        for (k, val) in [("text", MVal::Str(s)), ("bytes", b)] {
            steps.push(step(Op::AddKv { db: p.names[0].clone(), key: k.into(), val, create: true, over: true }));
        }
        steps.push(step(Op::GetDb { db: p.names[0].clone() }));
    }
    let mut c = Client { kind, start: 0, timeout: 100 * S, steps, linger: false };
    spice(r, &mut c, 40);
    if kind != ClientKind::Http {
        c.steps.push(step(Op::GetDb { db: p.name(r) }));
    } else {
        c.steps.push(step(Op::Audit));
    }
    let mut es = vec![epoch(vec![c], graceful(r, 0))];
    es.push(last(r));
    if r.chance(1, 5) {
        es.push(last(r));
    }
    let mut pl = plan(r, profile, run, es);
    if r.chance(1, 2) {
        pl.k.net.frag = *r.pick(&[1, 3, 100, 1460]);
        if sz.max_len > 1000 {
            pl.k.net.frag = 1460;
        }
    }
    if sz.max_len > 1000 {
        pl.k.alloc_period = 5000;
        pl.k.stall_num = 0;
    }
    pl.k.max_steps = 20_000_000;
    pl
}

///reads after acknowledged changes: few clients, caches, hand-overs
fn freshness(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 2) as usize;
        Pool::new(r, n, 2)
    };
    p.max_content = 3;
    let readers = r.range(1, 3);
    let mut cl = vec![];
    for i in 0..readers + 1 + r.below(2) {
        let kind = kinds(r);
        p.reads = if i < readers { 95 } else { 10 };
        p.removals = 30;
        let steps = r.range(3, 9);
        let mut c = client(r, &mut p, kind, steps, r.clone().below(200 * US));
        if r.chance(1, 2) {
            for s in &mut c.steps {
                s.delay = r.below(100 * US);
            }
        }
        cl.push(c);
    }
    let mut cr = Client { kind: ClientKind::Http, start: 3 * S, timeout: 100 * S, steps: vec![], linger: false };
    cr.steps.push(step(Op::Audit));
    cl.push(cr);
    let es = vec![epoch(cl, graceful(r, 0))];
    let mut pl = plan(r, profile, run, es);
    if r.chance(2, 3) {
        // threads that are held up half way, whilst others go on
        pl.workers = r.range(2, 4) as u32;
        pl.cpus = r.range(2, 4) as u32;
        pl.k.stall_num = r.range(20, 200);
        pl.k.stall_max = *r.pick(&[MS, 5 * MS, 50 * MS]);
        pl.k.alloc_period = r.logrange(30, 600);
    }
    pl
}

///one after the other: every answer is determined
fn outcomes(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 4) as usize;
        let kx = r.range(1, 4) as usize;
        Pool::new(r, n, kx)
    };
    p.bad = (0..3).map(|_| vals::bad_name(r)).collect();
    p.bad_percent = *r.pick(&[0, 10, 30]);
    p.removals = 35;
    let n = if r.chance(2, 3) { 1 } else { r.range(2, 3) };
    let mut cl = vec![];
    for _ in 0..n {
        let kind = if r.chance(4, 5) { ClientKind::Http } else { kinds(r) };
        let steps = r.range(8, 30);
        let mut c = client(r, &mut p, kind, steps / n, 0);
        if kind == ClientKind::Http && r.chance(1, 2) {
            let at = r.us(c.steps.len() + 1);
            c.steps.insert(at, step(odd_request(r, &p)));
        }
        spice(r, &mut c, 10);
        cl.push(c);
    }
    let es = vec![epoch(cl, graceful(r, 0))];
    plan(r, profile, run, es)
}

///requests whose form is wrong: 4xx, nothing changes
fn odd_request(r: &mut Rng, p: &Pool) -> Op {
    let db = r.pick(&p.names).clone();
    let q = |t: &str, v: &[(&str, &str)]| crate::http::query(t, v, false);
    let good_store = crate::client::to_store(&BTreeMap::from([("k".to_string(), MVal::Int("5".into()))])).ser();
    let good_value = MVal::Str("hello".into()).to_value().ser(None);
    let raw = |m: &str, t: String, b: Vec<u8>, e: Expect| Op::Raw { method: m.into(), target: t, headers: vec![], body: Bytes(b), expect: e, close: false };
    let e400 = Expect::Status(vec![400, 422, 415]);
    match r.below(16) {
        0 => raw("POST", q("/v1/add_db", &[("db_name", &db)]), vec![], e400),
        1 => raw("POST", q("/v1/add_db", &[("overwrite_existing", "true")]), vec![], e400),
        2 => raw("POST", q("/v1/add_db", &[("db_name", &db), ("overwrite_existing", "maybe")]), vec![], e400),
        3 => raw("POST", "/v1/rm_db".into(), vec![], e400),
        4 => raw("POST", q("/v1/rm_kv", &[("db_name", &db)]), vec![], e400),
        5 => raw("GET", q("/v1/get_value", &[("key", "k0")]), vec![], e400),
        6 => raw("PUT", q("/v1/add_kv", &[("db_name", &db), ("key", "k0"), ("create_new_database", "true")]), good_value, e400),
        7 => raw("GET", q("/v1/add_db", &[("db_name", &db), ("overwrite_existing", "true")]), vec![], Expect::Status(vec![405])),
        8 => raw("POST", q("/v1/get_db", &[("db_name", &db)]), vec![], Expect::Status(vec![405])),
        9 => raw("DELETE", q("/v1/rm_db", &[("db_name", &db)]), vec![], Expect::Status(vec![405])),
        10 => raw("POST", q("/v1/nothing", &[("db_name", &db)]), vec![], Expect::Status(vec![404])),
        11 => raw("PUT", q("/v1/add_kv", &[("db_name", &db), ("key", "k0"), ("create_new_database", "true"), ("overwrite_key", "true")]), vec![], Expect::Status(vec![400])),
        12 => {
            let n = r.us(good_store.len());
            raw("PUT", q("/v1/add_db_with_content", &[("db_name", &db), ("overwrite_existing", "true")]), good_store[..n].to_vec(), Expect::Status(vec![400]))
        }
        13 => {
            let n = r.us(good_value.len());
            raw("PUT", q("/v1/add_kv", &[("db_name", &db), ("key", "k0"), ("create_new_database", "true"), ("overwrite_key", "true")]), good_value[..n].to_vec(), Expect::Status(vec![400]))
        }
        14 => raw("POST", "/v1/add_db?db_name=%ff%fe&overwrite_existing=true".into(), vec![], Expect::Status(vec![400, 422])),
        _ => raw("GET", "/healthcheck".into(), vec![], Expect::Status(vec![200])),
    }
}

fn restarts(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 5) as usize;
        let kx = r.range(1, 5) as usize;
        Pool::new(r, n, kx)
    };
    p.sz = *r.pick(&[SMALL, MEDIUM]);
    p.big_percent = *r.pick(&[0, 0, 10, 30]);
    p.reads = 15;
    p.removals = *r.pick(&[5, 20, 40]);
    let n = r.range(1, 3);
    let st = r.range(2, 8);
    let re = r.range(1, 3);
    let mut es = one_restart(r, &mut p, n, st, re);
    if r.chance(1, 6) {
        es.push(last(r));
    }
    let mut pl = plan(r, profile, run, es);
    if p.big_percent > 0 {
        pl.k.alloc_period = pl.k.alloc_period.max(1000);
        pl.k.max_steps = 20_000_000;
    }
    pl
}

///requests that begin before the signal and are still being sent long after it
fn late_requests(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 3) as usize;
        Pool::new(r, n, 3)
    };
    p.reads = 10;
    p.removals = 15;
    let mut cl = vec![];
    if r.coin() {
        let (n, steps) = (r.range(1, 2), r.range(1, 6));
        cl.extend(crowd(r, &mut p, n, steps, true));
    }
    let at = if r.coin() { r.range(S, 12 * S) } else { 10 * S + r.below(300 * MS) };
    let around = *r.pick(&[0, 1, 2, 3, 5, 5, 8, 10, 10, 15, 20, 25, 30]) * S;
    let close = r.coin();
    for _ in 0..r.range(3, 10) {
        let before = r.range(10 * MS, 400 * MS);
        let end = match r.below(5) {
            0 => r.logrange(MS, 35 * S),
            1 => around + r.logrange(10 * US, 30 * MS),
            _ => around + r.logrange(if close { 10 * MS } else { MS }, 3 * S),
        };
        let mut c = client(r, &mut p, ClientKind::Http, 1, at - before);
        for s in &mut c.steps {
            s.delay = 0;
            s.net.pieces = r.range(2, 6);
            s.net.pause = (before + end) / (s.net.pieces - 1);
        }
        cl.push(c);
    }
    let mut e = epoch(cl, End::Graceful { sig: sig(r), when: When::At(at) });
    if r.chance(3, 4) {
        let ops = *r.pick(&[OP_FSYNC | OP_FSYNCDIR, OP_WRITE, OP_RENAME, u32::MAX]);
        e.faults.push(Fault::DiskStall { from: 0, to: 300 * S, ops, add: r.logrange(10 * MS, 1900 * MS) });
    }
    let es = vec![e, last(r)];
    plan(r, profile, run, es)
}
fn shutdown_loses_nothing(r: &mut Rng, profile: &str, run: u64) -> Plan {
    if run % 5 == 4 {
        return late_requests(r, profile, run);
    }
    let mut p = {
        let n = r.range(1, 3) as usize;
        Pool::new(r, n, 3)
    };
    p.reads = 10;
    p.removals = 15;
    let n = r.range(1, 4);
    let steps = r.range(3, 14);
    let mut cl = crowd(r, &mut p, n, steps, true);
    for c in &mut cl {
        if r.chance(1, 2) {
            for s in &mut c.steps {
                s.delay = r.logrange(US, 20 * MS);
            }
        }
        spice(r, c, 15);
    }
    if r.chance(1, 4) {
        // a request that is still being sent when the signal comes
        let mut c = client(r, &mut p, ClientKind::Http, 2, 0);
        for s in &mut c.steps {
            s.net.pieces = 6;
            s.net.pause = r.logrange(MS, 3 * S);
        }
        cl.push(c);
    }
    let busy = r.chance(1, 6);
    if busy {
        // a removal whose client is gone and that still goes on when the daemon stops
        let mut rm = step(Op::RmDb { db: "gone".into() });
        rm.net.abort = Abort::AfterSend(r.logrange(US, 10 * MS));
        cl.push(Client { kind: ClientKind::Http, start: r.below(3 * MS), timeout: 100 * S, steps: vec![step(Op::AddDb { db: "gone".into(), over: false }), rm], linger: false });
    }
    let when = match r.below(5) {
        0 => When::At(r.range(S / 100, 25 * S)),
        1 => When::At(10 * S + r.below(200 * MS)),
        2 => When::FsOp(r.range(1, 25), 0),
        _ => When::Acks(r.range(1, n * steps), r.logrange(1, 5 * MS)),
    };
    let mut e = epoch(cl, End::Graceful { sig: sig(r), when });
    if busy {
        e.faults.push(Fault::DiskStall { from: 0, to: 100 * S, ops: OP_UNLINK, add: r.logrange(10 * MS, 1900 * MS) });
    }
    if r.chance(1, 3) {
        e.faults.push(disk_stall(r, 0, 200 * S));
        e.faults.retain(|f| matches!(f, Fault::DiskStall { add, .. } if *add < 2 * S));
    }
    if r.chance(1, 8) {
        e.faults.push(Fault::Short { from: 0, to: 300 * S, ops: OP_WRITE, percent: 50 });
    }
    let es = vec![e, last(r)];
    plan(r, profile, run, es)
}

fn crashes(r: &mut Rng, profile: &str, run: u64, power: bool) -> Plan {
    let mut p = {
        let n = r.range(1, 4) as usize;
        let kx = r.range(1, 3) as usize;
        Pool::new(r, n, kx)
    };
    p.reads = 10;
    p.removals = *r.pick(&[0, 15, 35]);
    p.big_percent = if r.chance(1, 8) { 15 } else { 0 };
    let mut es = vec![];
    let rounds = r.range(1, 3);
    for i in 0..rounds {
        let n = r.range(1, 3);
        let steps = r.range(2, 7);
        let mut cl = vec![];
        for _ in 0..n {
            let kind = kinds(r);
            let mut c = client(r, &mut p, kind, steps, 0);
            // spread over two or three saves
            c.start = r.below(400 * US);
            for s in &mut c.steps {
                if r.chance(1, 3) {
                    s.delay = r.range(1, 9 * S);
                }
            }
            cl.push(c);
        }
        if i > 0 && r.chance(1, 8) {
            let mut e = epoch(vec![], graceful(r, 0));
            e.crash_in_start = true;
            e.audit = false;
            let ops = r.range(1, 4);
            e.end = if power { End::Power { when: When::FsOp(ops, 1) } } else { End::Kill { when: When::Step(r.range(10, 600)) } };
            es.push(e);
        }
        let when = crash_when(r, 60);
        let end = if r.chance(1, 10) {
            graceful(r, 0)
        } else if power {
            End::Power { when }
        } else {
            End::Kill { when }
        };
        let mut e = epoch(cl, end);
        if r.chance(1, 6) {
            e.faults.push(Fault::Short { from: 0, to: 100 * S, ops: OP_WRITE, percent: 60 });
        }
        es.push(e);
    }
    let mut l = last(r);
    if r.chance(1, 2) {
        // and it goes on
        l.clients = vec![client(r, &mut p, ClientKind::Http, 3, 0)];
        es.push(l);
        es.push(last(r));
    } else {
        es.push(l);
    }
    plan(r, profile, run, es)
}

///how much is lost at most
fn window(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 4) as usize;
        Pool::new(r, n, 3)
    };
    p.reads = 15;
    p.removals = 15;
    let mut cl = vec![];
    let traffic = r.below(4);
    for _ in 0..r.range(1, 3) {
        let kind = kinds(r);
        let steps = r.range(4, 14);
        let mut c = client(r, &mut p, kind, steps, r.clone().below(8 * S));
        for s in &mut c.steps {
            s.delay = match traffic {
                0 => r.logrange(US, 100 * MS),
                1 => r.range(0, 8 * S),
                2 => r.range(800 * MS, 1300 * MS),
                _ => r.logrange(MS, 20 * S),
            };
        }
        cl.push(c);
    }
    let busy = r.chance(1, 4);
    if busy {
        // removals that take long, whilst the save is due
        let mut c = Client { kind: ClientKind::Http, start: 0, timeout: 100 * S, steps: vec![], linger: false };
        let mut t = 0;
        for k in 1..=r.range(1, 3) {
            let want = k * 10 * S - r.logrange(10 * MS, 3 * S);
            let db = format!("gone{k}");
            c.steps.push(Step { delay: want.saturating_sub(t), op: Op::AddDb { db: db.clone(), over: false }, net: NetOpts::default() });
            let mut rm = step(Op::RmDb { db });
            if r.chance(1, 3) {
                rm.net.abort = Abort::AfterSend(r.logrange(US, 10 * MS));
            }
            c.steps.push(rm);
            t = want;
        }
        cl.push(c);
    }
    let at = match r.below(4) {
        0 => r.range(14 * S, 40 * S),
        1 => 10 * S * r.range(2, 6) + r.below(3 * S),
        2 => r.range(14 * S, 120 * S),
        _ => r.range(24 * S, 70 * S),
    };
    let when = When::At(at);
    let end = if r.coin() { End::Kill { when } } else { End::Power { when } };
    let mut e = epoch(cl, end);
    match r.below(4) {
        _ if busy => e.faults.push(Fault::DiskStall { from: 0, to: 100 * S, ops: OP_UNLINK, add: r.logrange(10 * MS, 3 * S) }),
        0 => {
            // errors which are over long before the end
            let to = (at / 2).max(3 * S);
            let n = r.range(1, 3);
            for _ in 0..n {
                let from = r.range(2 * S, to - 1);
                let t = r.range(from + 1, to);
                e.faults.push(disk_fault(r, from, t));
            }
        }
        1 => {
            let from = r.range(2 * S, at);
            let to = from + r.logrange(100 * MS, 15 * S);
            e.faults.push(disk_stall(r, from, to));
        }
        2 if !p.names.is_empty() => {
            // one database cannot be saved; the others can
            let x = p.names[0].clone();
            if vals::acceptable(&x) && !x.is_empty() {
                e.faults.push(Fault::Disk { from: 2 * S, to: 1000 * S, ops: OP_RENAME | OP_CREATE | OP_WRITE | OP_TRUNC, errno: libc::EIO, percent: 100, path: Some(format!("/{x}.sdb")), max: u64::MAX });
            }
        }
        _ => {}
    }
    if r.chance(1, 5) {
        e.faults.push(clock(r));
    }
    if r.chance(1, 6) {
        let at = r.range(S, at);
        e.faults.push(net_fault(r, at));
    }
    let mut es = vec![e, last(r)];
    if r.chance(1, 10) {
        es.push(last(r));
    }
    let mut pl = plan(r, profile, run, es);
    pl.k.stall_num = 0;
    pl
}

fn disk_errors(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 4) as usize;
        let kx = r.range(1, 3) as usize;
        Pool::new(r, n, kx)
    };
    p.reads = 15;
    p.removals = *r.pick(&[0, 10, 30]);
    let mut es = vec![];
    for _ in 0..r.range(1, 2) {
        let n = r.range(1, 3);
        let mut cl = vec![];
        for _ in 0..n {
            let kind = kinds(r);
            let steps = r.range(3, 9);
            let mut c = client(r, &mut p, kind, steps, r.clone().below(S));
            for s in &mut c.steps {
                if r.chance(2, 3) {
                    s.delay = r.range(0, 7 * S);
                }
            }
            cl.push(c);
        }
        let end_at = r.range(15 * S, 60 * S);
        let when = match r.below(4) {
            0 => When::FsOp(r.range(5, 80), r.below(3) as u8),
            1 => When::Done(r.range(0, 15 * S)),
            _ => When::At(end_at),
        };
        let end = match r.below(3) {
            0 => {
                let when = if let When::FsOp(n, _) = when { When::FsOp(n, 0) } else { when };
                End::Graceful { sig: sig(r), when }
            }
            1 => End::Kill { when },
            _ => End::Power { when },
        };
        let mut e = epoch(cl, end);
        match r.below(5) {
            0 if vals::acceptable(&p.names[0]) && !p.names[0].is_empty() => {
                e.faults.push(Fault::Disk { from: 2 * S, to: 1000 * S, ops: OP_RENAME | OP_CREATE | OP_WRITE | OP_TRUNC, errno: *r.pick(&[libc::EIO, libc::ENOSPC]), percent: 100, path: Some(format!("/{}.sdb", p.names[0])), max: u64::MAX });
            }
            1 => e.faults.push(Fault::Disk { from: 2 * S, to: 1000 * S, ops: OP_RENAME | OP_CREATE | OP_WRITE | OP_TRUNC | OP_FSYNC, errno: libc::EIO, percent: 100, path: Some("/meta.sdb".into()), max: r.range(1, 3) }),
            _ => {
                for _ in 0..r.range(1, 3) {
                    let from = r.range(2 * S, 40 * S);
                    let to = from + r.logrange(10 * MS, 40 * S);
                    e.faults.push(disk_fault(r, from, to));
                }
            }
        }
        es.push(e);
    }
    es.push(last(r));
    plan(r, profile, run, es)
}

fn removals(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 3) as usize;
        Pool::new(r, n, 2)
    };
    p.reads = 25;
    p.removals = 50;
    let mut es = vec![];
    let rounds = r.range(1, 3);
    for _ in 0..rounds {
        let n = r.range(1, 3);
        let mut cl = vec![];
        let steps = r.range(3, 8);
        let meet = moment(r);
        for _ in 0..n {
            let kind = kinds(r);
            let mut c = client(r, &mut p, kind, steps, meet + r.clone().below(MS));
            for s in &mut c.steps {
                if r.chance(1, 4) {
                    s.delay = r.range(0, 11 * S);
                }
            }
            cl.push(c);
        }
        let when = match r.below(4) {
            0 => When::FsOp(r.range(1, 60), r.below(3) as u8),
            1 => When::Acks(r.range(1, n * steps), r.logrange(US, 100 * MS)),
            _ => When::Done(r.below(13 * S)),
        };
        let end = match r.below(5) {
            0 | 1 => End::Graceful { sig: sig(r), when: if let When::FsOp(n, _) = when { When::FsOp(n, 0) } else { when } },
            2 | 3 => End::Kill { when },
            _ => End::Power { when },
        };
        let mut e = epoch(cl, end);
        if r.chance(1, 4) {
            e.faults.push(disk_stall(r, 2 * S, 60 * S));
        }
        if r.chance(1, 4) {
            e.faults.push(unlink_fault(r));
        }
        es.push(e);
    }
    es.push(last(r));
    plan(r, profile, run, es)
}

fn confinement(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(2, 5) as usize;
        Pool::new(r, n, 2)
    };
    p.names = vec![];
    for _ in 0..r.range(2, 6) {
        let n = vals::good_name(r);
        if !p.names.contains(&n) {
            p.names.push(n);
        }
    }
    for _ in 0..r.range(2, 6) {
        let n = vals::bad_name(r);
        p.bad.push(n);
    }
    p.bad_percent = 50;
    p.reads = 25;
    p.removals = 30;
    let mut es = vec![];
    for _ in 0..r.range(1, 2) {
        let n = r.range(1, 2);
        let mut cl = vec![];
        for _ in 0..n {
            let kind = if r.chance(3, 4) { ClientKind::Http } else { kinds(r) };
            let steps = r.range(6, 14);
            let mut c = client(r, &mut p, kind, steps, 0);
            spice(r, &mut c, 10);
            cl.push(c);
        }
        let end = match r.below(4) {
            0 => End::Kill { when: When::Done(11 * S) },
            _ => graceful(r, *r.clone().pick(&[0, 11 * S])),
        };
        es.push(epoch(cl, end));
    }
    es.push(last(r));
    plan(r, profile, run, es)
}

fn isolation(r: &mut Rng, profile: &str, run: u64) -> Plan {
    const FAMILIES: [&[&str]; 8] = [
        &["db", "Db", "DB", "dB"],
        &["a", "a.sdb", "a.sdb.sdb", "a."],
        &["x", "x ", " x", "x\t", "x+", "x%20", "x%2B"],
        &["n", "nn", "nnn", ""],
        &["save", "save.tmp", "save.tmp.sdb", "tmp", ".tmp"],
        &["meta.sdb", "Meta", "meta ", ".meta", "existing_dbs"],
        &["a&b", "a=b", "a;b", "a?b", "a#b"],
        &[".", "..", "...", "-", "--", "~"],
    ];
    const KEYS: [&[&str]; 5] = [
        &["k", "K", "k ", " k", "k\0"],
        &["", " ", "\t"],
        &["a+b", "a b", "a%20b", "a%2Bb"],
        &["é", "e\u{301}", "E"],
        &["1", "01", "1.0", "1e0"],
    ];
    let f: &[&str] = FAMILIES[r.us(FAMILIES.len())];
    let kf: &[&str] = KEYS[r.us(KEYS.len())];
    let mut p = Pool::new(r, 1, 1);
    p.names = f.iter().map(|x| (*x).to_string()).collect();
    r.shuffle(&mut p.names);
    p.names.truncate(4);
    p.keys = kf.iter().map(|x| (*x).to_string()).collect();
    p.removals = 30;
    p.reads = 25;
    let n = r.range(1, 3);
    let mut es = vec![];
    for _ in 0..r.range(1, 2) {
        let steps = r.range(5, 10);
        let mut cl = vec![];
        for j in 0..n {
            let kind = kinds(r);
            // everybody has favourites
            let all = p.names.clone();
            if r.coin() {
                p.names = vec![all[j as usize % all.len()].clone()];
            }
            let mut c = client(r, &mut p, kind, steps, moment(&mut r.clone()));
            p.names = all;
            spice(r, &mut c, 15);
            cl.push(c);
        }
        let end = match r.below(5) {
            0 => End::Kill { when: When::FsOp(r.range(1, 60), 0) },
            _ => graceful(r, *r.clone().pick(&[0, 11 * S])),
        };
        es.push(epoch(cl, end));
    }
    es.push(last(r));
    plan(r, profile, run, es)
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        let n = b.len();
        match r.below(11) {
            9 | 10 if n > 0 => {
                // a length that is not true
                let k = *r.pick(&[1usize, 2, 3, 4, 5, 8, 8, 8, 9, 16]);
                let mut int = vec![239 + k as u8];
                let fill = r.below(4);
                for j in 0..k {
                    int.push(match fill {
                        0 | 1 => 0xff,
                        2 => if j + 1 == k { 1 << r.below(8) } else { 0 },
                        _ => if j == 0 { 0xf8 | r.below(8) as u8 } else { 0xff },
                    });
                }
                let i = r.us(n);
                let skip = r.us(2);
                b.splice(i..i + skip, int);
            }
            0 if n > 0 => {
                let i = r.us(n);
                b[i] ^= 1 << r.below(8);
            }
            1 if n > 0 => {
                let i = r.us(n);
                b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xf0, 0x0f]);
            }
            2 => b.truncate(r.us(n + 1)),
            3 => {
                let l = r.logrange(1, 64) as usize;
                let x = vals::bin(r, l);
                b.extend(x);
            }
            4 if n > 0 => {
                // a huge number in place of something
                let i = r.us(n);
                let l = r.range(1, 17) as usize;
                for j in i..(i + l).min(n) {
                    b[j] = 0xff;
                }
            }
            5 if n > 1 => {
                let i = r.us(n);
                b.remove(i);
            }
            6 => {
                let i = r.us(n + 1);
                b.insert(i, r.next() as u8);
            }
            7 if n > 3 => {
                // repeat a part
                let i = r.us(n - 1);
                let l = r.range(1, (n - i) as u64) as usize;
                let part = b[i..i + l].to_vec();
                for _ in 0..r.below(20) {
                    b.splice(i..i, part.iter().copied());
                }
                b.truncate(100_000);
            }
            _ => {
                let l = r.logrange(1, 40) as usize;
                *b = (0..l).map(|_| r.next() as u8).collect();
            }
        }
    }
}
///bytes meant to hurt the decoder
fn evil_value(r: &mut Rng, kept: bool) -> Vec<u8> {
    match r.below(8) {
        0 => {
            // very deep nesting
            let inner = MVal::Arr(vec![MVal::Null]).to_value().ser(None);
            let null = MVal::Null.to_value().ser(None);
            let head = inner[..inner.len() - null.len()].to_vec();
            let n = *r.pick(&[127u64, 128, 129, 200, 5000, 200_000, 1_000_000]);
            let mut v = Vec::with_capacity(head.len() * n as usize);
            for _ in 0..n {
                v.extend_from_slice(&head);
            }
            v.extend(null);
            v
        }
        1 => {
            let inner = MVal::Map(BTreeMap::from([("k".to_string(), MVal::Null)])).to_value().ser(None);
            let null = MVal::Null.to_value().ser(None);
            let head = inner[..inner.len() - null.len()].to_vec();
            let n = *r.pick(&[100u64, 129, 5000, 100_000]);
            head.repeat(n as usize)
        }
        2 => {
            let l = r.logrange(1, 200) as usize;
            vals::bin(r, l)
        }
        3 => vec![(r.next() as u8); r.range(1, 300) as usize],
        _ => {
            let _ = kept;
            let v = vals::val(r, 2, MEDIUM);
            let mut b = v.to_value().ser(None);
            mutate(r, &mut b);
            b
        }
    }
}
fn evil_store(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        6.. => {
            // what is inside of the compression
            let n = r.range(1, 4);
            let b = crate::client::to_store(&vals::content(r, MEDIUM, n)).ser();
            let ct = sourisdb::types::binary::BinaryCompression::try_from(b[8] & 0x7f).expect("compression");
            let mut inner = sourisdb::types::binary::BinaryData::deser(ct, &mut sourisdb::utilities::cursor::Cursor::new(&&b[9..])).map(|x| x.0).unwrap_or_default();
            mutate(r, &mut inner);
            let mut out = b"SOURISDB".to_vec();
            out.push(b[8] & 0x80);
            out.extend(sourisdb::types::integer::Integer::usize(inner.len()).ser().1);
            out.extend(inner);
            out
        }
        0 => {
            let l = r.logrange(1, 200) as usize;
            vals::bin(r, l)
        }
        1 => evil_value(r, false),
        2 => {
            // a map of many equal keys or a huge one
            let n = r.range(1, 6);
            let mut b = crate::client::to_store(&vals::content(r, SMALL, n)).ser();
            let n = b.len();
            for i in 0..n.min(12) {
                if r.chance(1, 4) {
                    b[i] = 0xff;
                }
            }
            b
        }
        _ => {
            let n = r.range(1, 6);
            let mut b = crate::client::to_store(&vals::content(r, MEDIUM, n)).ser();
            mutate(r, &mut b);
            b
        }
    }
}
fn junk(r: &mut Rng) -> (Vec<u8>, Expect) {
    const J: [&[u8]; 18] = [
        b"\r\n\r\n",
        b"GET\r\n\r\n",
        b"GET / HTTP/9.9\r\n\r\n",
        b"GET /v1/get_all_db_names HTTP/1.1\r\n\r\n\r\n",
        b"GET /v1/get_db?db_name=a HTTP/1.1\r\nhost: x\r\ncontent-length: nope\r\n\r\n",
        b"PUT /v1/add_kv?db_name=scratch&key=k&create_new_database=true&overwrite_key=true HTTP/1.1\r\nhost: x\r\ncontent-length: 18446744073709551615\r\n\r\nab",
        b"PUT /v1/add_kv?db_name=scratch&key=k&create_new_database=true&overwrite_key=true HTTP/1.1\r\nhost: x\r\ncontent-length: 5\r\ncontent-length: 7\r\n\r\nabcdefg",
        b"PUT /v1/add_kv?db_name=scratch&key=k&create_new_database=true&overwrite_key=true HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\nffffffffffffffffff\r\nab",
        b"PUT /v1/add_kv?db_name=scratch&key=k&create_new_database=true&overwrite_key=true HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\n2\r\nab\r\nzz\r\n",
        b"PUT /v1/add_db_with_content?db_name=scratch&overwrite_existing=true HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\n4\r\nab",
        b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\0\0\0\x04\0\0\0\0\0",
        b"POST /v1/add_db?db_name=a&overwrite_existing=true HTTP/1.1\nhost: x\n",
        b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03",
        b"GET /v1/get_db?db_name=%zz HTTP/1.0\r\n\r\n",
        b"GET \0 HTTP/1.1\r\n\r\n",
        b"OPTIONS * HTTP/1.1\r\nhost: x\r\n\r\n",
        b"CONNECT a:1 HTTP/1.1\r\nhost: a:1\r\n\r\n",
        b"GET /v1/get_all_db_names HTTP/1.1\r\nhost: x\r\nconnection: upgrade\r\nupgrade: websocket\r\n\r\n",
    ];
    match r.below(4) {
        0 | 1 => ((*r.pick(&J)).to_vec(), Expect::Any),
        2 => {
            let l = r.logrange(1, 3000) as usize;
            (vals::bin(r, l), Expect::Any)
        }
        _ => {
            // an endless header or target
            let mut v = b"GET /v1/get_db?db_name=".to_vec();
            v.extend(std::iter::repeat(b'a').take(*r.pick(&[1000usize, 9000, 66_000, 500_000])));
            if r.coin() {
                v.extend(b" HTTP/1.1\r\nhost: x\r\n\r\n");
            }
            (v, Expect::Any)
        }
    }
}

fn malformed(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 2) as usize;
        Pool::new(r, n, 2)
    };
    p.reads = 40;
    let mut cl = vec![];
    let mut steps = vec![];
    for _ in 0..r.range(3, 10) {
        let raw = |m: &str, t: String, b: Vec<u8>, e: Expect| Op::Raw { method: m.into(), target: t, headers: vec![], body: Bytes(b), expect: e, close: false };
        let op = match r.below(8) {
            0..=2 => {
                let b = evil_value(r, true);
                raw("PUT", crate::http::query("/v1/add_kv", &[("db_name", SCRATCH), ("key", "k"), ("create_new_database", "true"), ("overwrite_key", "true")], false), b, Expect::Any)
            }
            3 | 4 => {
                let b = evil_store(r);
                raw("PUT", crate::http::query("/v1/add_db_with_content", &[("db_name", SCRATCH), ("overwrite_existing", if r.coin() { "true" } else { "false" })], false), b, Expect::Any)
            }
            5 => odd_request(r, &p),
            6 => {
                let (bytes, expect) = junk(r);
                Op::Junk { bytes: Bytes(bytes), expect }
            }
            _ => {
                // a value cut off, for a database that counts
                let v = vals::val(r, 2, MEDIUM).to_value().ser(None);
                let n = r.us(v.len());
                let db = r.pick(&p.names).clone();
                raw("PUT", crate::http::query("/v1/add_kv", &[("db_name", &db), ("key", "k0"), ("create_new_database", "true"), ("overwrite_key", "true")], false), v[..n].to_vec(), Expect::Status(vec![400]))
            }
        };
        steps.push(step(op));
        if r.chance(1, 4) {
            steps.push(step(raw("GET", crate::http::query("/v1/get_db", &[("db_name", SCRATCH)], false), vec![], Expect::Any)));
        }
    }
    cl.push(Client { kind: ClientKind::Http, start: 0, timeout: 60 * S, steps, linger: false });
    for _ in 0..r.range(1, 2) {
        let kind = kinds(r);
        let n = r.range(2, 6);
        let c = client(r, &mut p, kind, n, r.clone().below(3 * MS));
        cl.push(c);
    }
    if r.chance(1, 5) {
        cl.push(Client { kind: ClientKind::HalfRequest, start: 0, timeout: 20 * S, steps: vec![], linger: true });
    }
    let end = match r.below(4) {
        0 => End::Kill { when: When::Done(12 * S) },
        _ => graceful(r, 0),
    };
    let es = vec![epoch(cl, end), last(r)];
    let mut pl = plan(r, profile, run, es);
    pl.k.alloc_period = if pl.k.alloc_period == 0 { 0 } else { pl.k.alloc_period.max(500) };
    pl.k.stall_num = 0;
    pl
}

fn damage(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(2, 5) as usize;
        Pool::new(r, n, 3)
    };
    p.reads = 5;
    p.removals = 5;
    p.sz = MEDIUM;
    p.max_content = 6;
    let mut es = vec![];
    let n = r.range(1, 2);
    let steps = r.range(5, 10);
    let mut cl = vec![];
    // make sure that most of them exist
    let mut first = vec![];
    for x in p.names.clone() {
        first.push(step(Op::AddContent { db: x, over: true, content: p.content(r) }));
    }
    cl.push(Client { kind: ClientKind::Http, start: 0, timeout: 60 * S, steps: first, linger: false });
    for _ in 0..n {
        let c = client(r, &mut p, ClientKind::Http, steps, 20 * MS);
        cl.push(c);
    }
    es.push(epoch(cl, graceful(r, 0)));
    let rounds = r.range(1, 2);
    for _ in 0..rounds {
        let mut e = last(r);
        let mut names: Vec<String> = p.names.iter().filter(|x| vals::acceptable(x)).cloned().collect();
        r.shuffle(&mut names);
        names.truncate(r.range(1, 2) as usize);
        for name in names {
            e.damage.push(match r.below(7) {
                0 => Damage::Truncate { name, keep: r.logrange(1, 200) },
                1 => Damage::Truncate { name, keep: 0 },
                2 => Damage::Zero { name },
                3 => Damage::Flip { name, bits: (0..r.range(1, 4)).map(|_| if r.coin() { r.below(100) } else { r.next() >> 8 }).collect() },
                4 => {
                    let data = if r.coin() { evil_store(r) } else { vals::bin(r, 300) };
                    Damage::Garbage { name, data: Bytes(data) }
                }
                5 => Damage::Append { name, data: Bytes(vals::bin(r, 50)) },
                _ => Damage::Delete { name },
            });
        }
        if r.coin() {
            let n = r.range(1, 5);
            e.clients = vec![client(r, &mut p, ClientKind::Http, n, 0)];
        }
        if r.chance(1, 3) {
            e.end = End::Kill { when: When::At(r.range(11 * S, 25 * S)) };
        }
        es.push(e);
    }
    es.push(last(r));
    plan(r, profile, run, es)
}

fn abandoned(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 2) as usize;
        let kx = r.range(1, 3) as usize;
        Pool::new(r, n, kx)
    };
    p.removals = *r.pick(&[20, 50]);
    p.big_percent = if r.chance(1, 3) { 8 } else { 0 };
    let mut cl = vec![];
    let mut left = 8;
    let n = r.range(2, 4);
    let m = moment(r);
    for _ in 0..n {
        let kind = if r.chance(1, 5) { ClientKind::Async } else { ClientKind::Http };
        let st = r.range(2, 6);
        p.reads = 15;
        let mut c = client(r, &mut p, kind, st, m + r.clone().below(300 * US));
        for s in &mut c.steps {
            if left > 0 && r.chance(1, 2) {
                s.net.abort = abort(r);
                if kind == ClientKind::Async {
                    s.net.abort = Abort::AfterSend(r.logrange(US, MS));
                }
                left -= 1;
            }
        }
        cl.push(c);
    }
    // somebody who looks
    p.reads = 90;
    let n = r.range(2, 6);
    let c = client(r, &mut p, ClientKind::Http, n, m + r.clone().below(MS));
    cl.push(c);
    cl.push(Client { kind: ClientKind::Http, start: m + 3 * S, timeout: 60 * S, steps: vec![step(Op::Audit)], linger: false });
    let end = match r.below(4) {
        0 => End::Kill { when: When::Done(12 * S) },
        _ => graceful(r, 0),
    };
    let mut e = epoch(cl, end);
    if r.chance(1, 3) {
        e.faults.push(Fault::DiskStall { from: S, to: 100 * S, ops: OP_UNLINK | OP_RENAME, add: r.logrange(MS, S) });
    }
    let mut es = vec![e];
    if r.coin() {
        p.reads = 20;
        let n = r.range(2, 5);
        let c = client(r, &mut p, ClientKind::Http, n, 0);
        es.push(epoch(vec![c], graceful(r, 0)));
    }
    es.push(last(r));
    let mut pl = plan(r, profile, run, es);
    if r.chance(1, 2) {
        pl.k.disk = DiskCfg { op_min: 100 * US, op_max: 5 * MS, sync_min: MS, sync_max: 10 * MS };
    }
    pl
}

///now and then everybody comes together when the daemon saves
fn gather(r: &mut Rng, clients: &mut [Client]) {
    if !r.chance(1, 6) {
        return;
    }
    let before = r.logrange(US, 20 * MS);
    for c in clients {
        if matches!(c.kind, ClientKind::Idle | ClientKind::HalfRequest) || c.steps.is_empty() {
            continue;
        }
        let at = r.us(c.steps.len() + 1);
        let m = before + r.below(200 * US);
        c.steps.insert(at, step(Op::Meet { before: m }));
    }
}
///requests exactly when a save starts and ends, on several threads
fn collisions(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 3) as usize;
        Pool::new(r, n, 2)
    };
    p.reads = *r.pick(&[30, 60]);
    p.removals = 30;
    p.max_content = 3;
    // whatever the daemon waits for before its first save; learned from where the saves fall
    let k = r.range(1, 3);
    let before = r.logrange(US, 20 * MS);
    let mut cl = vec![];
    for _ in 0..r.range(2, 4) {
        let kind = kinds(r);
        let n = r.range(4, 10);
        let mut c = client(r, &mut p, kind, n, (10 * k - 8) * S);
        let gap = r.logrange(10 * US, 5 * MS);
        for s in &mut c.steps {
            s.delay = r.below(gap);
        }
        c.steps.insert(r.us(2), step(Op::Meet { before: before + r.clone().below(100 * US) }));
        cl.push(c);
    }
    let mut c = client(r, &mut p, ClientKind::Http, 2, 75 * S);
    c.steps.push(step(Op::Audit));
    cl.push(c);
    let end = if r.coin() { graceful(r, 0) } else { End::Graceful { sig: sig(r), when: When::At(10 * k * S + r.below(100 * MS)) } };
    let es = vec![epoch(cl, end), last(r)];
    let mut pl = plan(r, profile, run, es);
    pl.workers = r.range(2, 4) as u32;
    pl.cpus = r.range(2, 4) as u32;
    pl.k.stall_num = r.range(20, 200);
    pl.k.stall_max = *r.pick(&[MS, 5 * MS, 50 * MS]);
    pl.k.alloc_period = r.logrange(8, 300);
    pl.k.disk = DiskCfg { op_min: 50 * US, op_max: 3 * MS, sync_min: MS, sync_max: 20 * MS };
    pl
}

fn liveness(r: &mut Rng, profile: &str, run: u64) -> Plan {
    if r.chance(1, 3) {
        return collisions(r, profile, run);
    }
    let mut p = {
        let n = r.range(1, 3) as usize;
        Pool::new(r, n, 2)
    };
    p.reads = 30;
    p.removals = 30;
    let mut cl = vec![];
    let n = r.range(2, 4);
    for _ in 0..n {
        let kind = kinds(r);
        let st = r.range(3, 8);
        let mut c = client(r, &mut p, kind, st, r.clone().below(20 * S));
        for s in &mut c.steps {
            if r.coin() {
                s.delay = r.range(0, 6 * S);
            }
            if kind == ClientKind::Http && r.chance(1, 12) {
                s.net.abort = abort(r);
            }
            if kind == ClientKind::Http && r.chance(1, 10) {
                s.net.pieces = 5;
                s.net.pause = r.logrange(MS, 2 * S);
            }
        }
        cl.push(c);
    }
    for _ in 0..r.below(3) {
        cl.push(Client { kind: if r.coin() { ClientKind::Idle } else { ClientKind::HalfRequest }, start: r.below(15 * S), timeout: 50 * S, steps: vec![], linger: true });
    }
    if r.chance(1, 4) {
        // many silent connections
        for _ in 0..r.range(5, 20) {
            cl.push(Client { kind: ClientKind::HalfRequest, start: r.below(2 * S), timeout: 50 * S, steps: vec![], linger: true });
        }
    }
    // after everything
    let mut c = client(r, &mut p, ClientKind::Http, 3, 75 * S);
    c.steps.push(step(Op::Audit));
    cl.push(c);
    let mut e = epoch(cl, graceful(r, 0));
    e.end = match r.below(3) {
        0 => graceful(r, 0),
        1 => End::Kill { when: When::Done(14 * S) },
        _ => End::Graceful { sig: sig(r), when: When::At(r.range(20 * S, 100 * S)) },
    };
    for _ in 0..r.range(1, 4) {
        let from = r.range(2 * S, 30 * S);
        let to = from + r.logrange(10 * MS, 20 * S);
        let f = match r.below(5) {
            0 => disk_fault(r, from, to),
            1 | 2 => disk_stall(r, from, to),
            _ => net_fault(r, from),
        };
        e.faults.push(f);
    }
    if r.chance(1, 3) {
        e.faults.push(clock(r));
    }
    for c in &mut e.clients {
        c.timeout = 100 * S;
    }
    let es = vec![e, last(r)];
    let mut pl = plan(r, profile, run, es);
    if pl.k.disk.sync_max > 20 * MS {
        pl.k.disk = DiskCfg { op_min: 10 * US, op_max: 200 * US, sync_min: 100 * US, sync_max: 20 * MS };
    }
    pl
}

fn shutdown_finishes(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 3) as usize;
        Pool::new(r, n, 2)
    };
    p.reads = 30;
    let mut cl = vec![];
    for _ in 0..r.range(1, 4) {
        let kind = kinds(r);
        let st = r.range(1, 7);
        let mut c = client(r, &mut p, kind, st, moment(&mut r.clone()));
        c.linger = r.coin();
        for s in &mut c.steps {
            if kind == ClientKind::Http && r.chance(1, 12) {
                s.net.abort = abort(r);
            }
            if kind == ClientKind::Http && r.chance(1, 10) {
                s.net.pieces = 5;
                s.net.pause = r.logrange(MS, 2 * S);
            }
        }
        cl.push(c);
    }
    for _ in 0..r.below(4) {
        cl.push(Client { kind: if r.chance(2, 3) { ClientKind::Idle } else { ClientKind::HalfRequest }, start: moment(r), timeout: 50 * S, steps: vec![], linger: true });
    }
    let when = match r.below(6) {
        0 => When::At(10 * S * r.range(1, 3) + r.below(100 * MS)),
        1 => When::At(r.below(30 * S)),
        2 => When::FsOp(r.range(1, 30), 0),
        3 => When::Acks(r.range(1, 8), r.logrange(1, MS)),
        _ => When::Done(*r.pick(&[0, MS, 10 * S, 60 * S])),
    };
    let mut e = epoch(cl, End::Graceful { sig: sig(r), when });
    for _ in 0..r.below(3) {
        let from = r.range(2 * S, 30 * S);
        let f = match r.below(5) {
            0 | 1 => disk_fault(r, from, from + 100 * S),
            2 | 3 => disk_stall(r, from, from + 20 * S),
            _ => net_fault(r, from),
        };
        e.faults.push(f);
    }
    let es = vec![e, last(r)];
    let mut pl = plan(r, profile, run, es);
    if pl.k.disk.sync_max > 20 * MS {
        pl.k.disk = DiskCfg { op_min: 10 * US, op_max: 200 * US, sync_min: 100 * US, sync_max: 20 * MS };
    }
    pl
}

fn library(r: &mut Rng, profile: &str, run: u64, kind: ClientKind) -> Plan {
    let mut p = {
        let n = r.range(1, 3) as usize;
        let kx = r.range(1, 3) as usize;
        Pool::new(r, n, kx)
    };
    p.sz = *r.pick(&[SMALL, MEDIUM]);
    p.big_percent = if r.chance(1, 4) { 10 } else { 0 };
    p.removals = 35;
    if r.chance(1, 4) {
        // what the daemon refuses
        p.bad = vec![vals::bad_name(r)];
        p.bad_percent = 20;
    }
    let mut cl = vec![];
    let n = r.range(1, 2);
    let mut aborts = 6;
    for _ in 0..n {
        let st = r.range(3, 12);
        let mut c = client(r, &mut p, kind, st, r.clone().below(2 * MS));
        if kind == ClientKind::Async && r.chance(1, 4) {
            for s in &mut c.steps {
                if aborts > 0 && r.chance(1, 4) {
                    aborts -= 1;
                    s.net.abort = Abort::AfterSend(r.logrange(US, MS));
                }
            }
        }
        if r.chance(1, 2) {
            for s in &mut c.steps {
                if r.chance(1, 4) {
                    s.delay = r.logrange(MS, 8 * S);
                }
            }
        }
        cl.push(c);
    }
    if r.coin() {
        let n = r.range(1, 4);
        let c = client(r, &mut p, ClientKind::Http, n, r.clone().below(2 * MS));
        cl.push(c);
    }
    let mut e = epoch(cl, graceful(r, 0));
    if r.chance(2, 5) {
        for _ in 0..r.range(1, 3) {
            let at = if r.coin() { r.range(MS, 20 * MS) } else { r.range(MS, 10 * S) };
            let f = net_fault(r, at);
            e.faults.push(f);
        }
    } else if r.chance(1, 3) {
        // what the daemon cannot do
        let f = unlink_fault(r);
        e.faults.push(f);
    } else if r.chance(1, 4) {
        e.end = match r.below(3) {
            0 => End::Kill { when: When::Acks(r.range(1, 12), r.logrange(1, MS)) },
            _ => End::Graceful { sig: sig(r), when: When::Acks(r.range(1, 12), r.logrange(1, MS)) },
        };
    }
    let es = vec![e, last(r)];
    plan(r, profile, run, es)
}

fn read_errors(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 4) as usize;
        Pool::new(r, n, 3)
    };
    p.reads = 5;
    p.removals = 10;
    p.max_content = 6;
    p.big_percent = if r.chance(1, 6) { 10 } else { 0 };
    let mut first = vec![];
    for x in p.names.clone() {
        first.push(step(Op::AddContent { db: x, over: true, content: p.content(r) }));
    }
    let mut c = client(r, &mut p, ClientKind::Http, 4, 30 * MS);
    c.steps.splice(0..0, first);
    let mut es = vec![epoch(vec![c], graceful(r, 0))];
    for _ in 0..r.range(1, 3) {
        if r.chance(1, 4) {
            let mut e = epoch(vec![], End::Kill { when: When::Step(r.range(5, 600)) });
            e.crash_in_start = true;
            e.audit = false;
            es.push(e);
            continue;
        }
        let mut e = last(r);
        e.may_refuse = true;
        let percent = *r.pick(&[3, 15, 40, 100]);
        let errno = *r.pick(&[libc::EIO, libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::EINTR, libc::ESTALE]);
        let path = match r.below(4) {
            0 => Some("/meta.sdb".to_string()),
            1 => {
                let x = r.pick(&p.names).clone();
                (!x.is_empty()).then(|| format!("/{x}.sdb"))
            }
            _ => None,
        };
        e.faults.push(Fault::Disk { from: 0, to: S, ops: *r.pick(&[OP_READ, OP_OPEN, OP_READ | OP_OPEN, OP_READ | OP_OPEN | OP_STAT]), errno, percent, path, max: r.range(1, 20) });
        if r.chance(1, 3) {
            e.faults.push(Fault::Short { from: 0, to: S, ops: OP_READ, percent: 80 });
        }
        e.end = match r.below(3) {
            0 => End::Kill { when: When::Done(12 * S) },
            _ => graceful(r, *r.clone().pick(&[0, 0, 12 * S])),
        };
        es.push(e);
    }
    es.push(last(r));
    plan(r, profile, run, es)
}

///lives which cannot begin, and must leave everything as it was
fn failing_starts(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 5) as usize;
        Pool::new(r, n, 3)
    };
    p.removals = 10;
    p.max_content = 6;
    let mut first = vec![];
    for x in p.names.clone() {
        first.push(step(Op::AddContent { db: x, over: true, content: p.content(r) }));
    }
    let mut c = client(r, &mut p, ClientKind::Http, 4, 30 * MS);
    c.steps.splice(0..0, first);
    let mut es = vec![epoch(vec![c], graceful(r, 0))];
    let mut broken = false;
    for _ in 0..r.range(1, 3) {
        let mut e = last(r);
        if broken {
            e.damage.push(Damage::Restore { name: "meta".into() });
        }
        broken = false;
        e.may_refuse = true;
        e.start_limit = 100 * S;
        if r.chance(1, 3) {
            let n = r.range(1, 4);
            e.clients = vec![client(r, &mut p, ClientKind::Http, n, 0)];
        }
        match r.below(6) {
            0..=2 => e.faults.push(Fault::Bind { errno: *r.pick(&[libc::EADDRINUSE, libc::EADDRINUSE, libc::EACCES, libc::EADDRNOTAVAIL]), max: *r.pick(&[1, u64::MAX]) }),
            3 | 4 => {
                let name = "meta".to_string();
                e.damage.push(match r.below(5) {
                    0 => Damage::Truncate { name, keep: 0 },
                    1 => Damage::Truncate { name, keep: r.range(1, 9) },
                    2 => Damage::Truncate { name, keep: r.logrange(9, 80) },
                    3 => Damage::Zero { name },
                    _ => Damage::Garbage { name, data: Bytes([b"GARBAGE".to_vec(), vals::bin(r, 100)].concat()) },
                });
                e.end = graceful(r, 0);
                broken = true;
            }
            _ => e.faults.push(Fault::Disk {
                from: 0,
                to: S,
                ops: OP_READ | OP_OPEN,
                errno: *r.pick(&[libc::EIO, libc::EACCES]),
                percent: *r.pick(&[20, 100]),
                path: if r.coin() { Some("/meta.sdb".into()) } else { None },
                max: u64::MAX,
            }),
        }
        if r.chance(1, 4) {
            e.end = End::Kill { when: When::Done(12 * S) };
        }
        es.push(e);
    }
    let mut e = last(r);
    if broken {
        e.damage.push(Damage::Restore { name: "meta".into() });
    }
    if r.coin() {
        let n = r.range(1, 4);
        e.clients = vec![client(r, &mut p, ClientKind::Http, n, 0)];
    }
    es.push(e);
    es.push(last(r));
    plan(r, profile, run, es)
}

///the same again and again: what is left of it?
fn endurance(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = {
        let n = r.range(1, 4) as usize;
        Pool::new(r, n, 3)
    };
    p.max_content = 3;
    p.maps = 0;
    let h = |steps| Client { kind: ClientKind::Http, start: 0, timeout: 100 * S, steps, linger: false };
    let mut steps = vec![];
    for x in p.names.clone() {
        steps.push(step(Op::AddContent { db: x.clone(), over: true, content: p.content(r) }));
        steps.push(step(Op::GetDb { db: x }));
    }
    let big = run % 6 == 3;
    let size = r.range(50_000, 60_000) as usize;
    // more than what is written at once
    let huge = run == 21;
    let whole = r.chance(1, 3);
    let ints = |r: &mut Rng, n: u64| MVal::Arr((0..n).map(|_| MVal::Int((u128::from(r.next() | 1 << 63) << 64 | u128::from(r.next())).to_string())).collect());
    let large = |r: &mut Rng| {
        if whole {
            return ints(r, 3000);
        }
        let (b, n) = (r.next() as u8, r.range(1, 2000) as usize);
        MVal::Bin(Bytes((0..size).map(|i| if i < n { r.next() as u8 } else { b }).collect()))
    };
    let heavy = [p.names[0].clone(), "other0".to_string(), "other1".to_string()];
    if big {
        for db in heavy.clone() {
            steps.push(step(Op::AddKv { db: db.clone(), key: "large".into(), val: large(r), create: true, over: true }));
            steps.push(step(Op::GetDb { db }));
        }
    }
    if huge {
        let n = r.range(126_000, 128_000);
        steps.push(step(Op::AddKv { db: "whale".into(), key: "large".into(), val: ints(r, n), create: true, over: true }));
    }
    // the cache tidies up now and then when it is used
    let calm = |steps: &mut Vec<Step>| {
        for _ in 0..3 {
            for op in [Op::AddDb { db: "tiny".into(), over: true }, Op::GetDb { db: "tiny".into() }] {
                steps.push(Step { delay: S, op, net: NetOpts::default() });
            }
        }
    };
    calm(&mut steps);
    steps.push(Step { delay: 12 * S, op: Op::Probe, net: NetOpts::default() });
    let mut e = epoch(vec![], graceful(r, 0));
    for _ in 0..r.range(1, 2) {
        let n = if big { r.range(50, 60) } else { r.range(24, 40) };
        match if huge || big && r.chance(1, 3) { 2 } else if big { 7 } else { r.below(7) } {
            // abandoned requests
            0 | 1 => {
                for _ in 0..n {
                    let mut s = step(p.op(r, ClientKind::Http));
                    s.delay = delay(r);
                    s.net.fresh_conn = true;
                    s.net.abort = abort(r);
                    steps.push(s);
                }
            }
            // saves which fail
            2 | 3 => {
                let t = if huge { 110 } else { r.range(150, 300) } * S;
                let n = if big { 20 } else { n };
                let mut f = if huge {
                    Fault::Disk { from: 0, to: 0, ops: OP_WRITE, errno: *r.pick(&[libc::EIO, libc::ENOSPC]), percent: 100, path: None, max: 0 }
                } else if r.chance(1, 4) {
                    unlink_fault(r)
                } else {
                    disk_fault(r, 0, 0)
                };
                if let Fault::Disk { from, to, max, .. } = &mut f {
                    (*from, *to, *max) = (60 * S, 60 * S + t, u64::MAX);
                }
                e.faults.push(f);
                for _ in 0..n {
                    let mut s = step(p.op(r, ClientKind::Http));
                    s.delay = r.range(0, 2 * t / n);
                    steps.push(s);
                }
            }
            // databases which come and go
            4 => {
                for k in 0..n {
                    let db = if r.coin() { format!("brief{k}") } else { r.pick(&p.names).clone() };
                    let mut a = step(Op::AddContent { db: db.clone(), over: true, content: p.content(r) });
                    a.delay = *r.pick(&[0, 0, MS, 5 * S, 11 * S]);
                    steps.push(a);
                    if r.coin() {
                        steps.push(step(Op::GetDb { db: db.clone() }));
                    }
                    let mut b = step(Op::RmDb { db });
                    b.delay = *r.pick(&[0, 0, MS, 5 * S, 11 * S]);
                    steps.push(b);
                }
            }
            // connections without much on them
            5 => {
                for _ in 0..n {
                    let (b, x) = junk(r);
                    let mut s = step(if r.coin() { Op::Junk { bytes: Bytes(b), expect: x } } else { p.op(r, ClientKind::Http) });
                    s.net.fresh_conn = true;
                    s.delay = delay(r);
                    steps.push(s);
                }
            }
            // all sorts
            6 => {
                for _ in 0..2 * n {
                    let mut s = step(p.op(r, ClientKind::Http));
                    s.delay = delay(r);
                    s.net.fresh_conn = r.coin();
                    steps.push(s);
                }
            }
            // much data
            _ => {
                for k in 0..n {
                    let db = heavy[(k % 3) as usize].clone();
                    let mut s = if r.chance(1, 3) {
                        step(Op::AddContent { db: db.clone(), over: true, content: BTreeMap::from([("large".to_string(), large(r))]) })
                    } else {
                        step(Op::AddKv { db: db.clone(), key: "large".into(), val: large(r), create: true, over: true })
                    };
                    s.delay = delay(r);
                    if r.chance(1, 6) {
                        s.net.abort = Abort::AfterBytes(r.range(1000, size as u64));
                    }
                    steps.push(s);
                    if r.coin() {
                        steps.push(step(Op::GetDb { db: db.clone() }));
                    }
                    if r.chance(1, 5) {
                        steps.push(step(Op::RmDb { db }));
                    }
                }
            }
        }
        calm(&mut steps);
        steps.push(step(Op::Probe));
        if big {
            break;
        }
    }
    e.clients.push(h(steps));
    if r.coin() {
        // somebody else meanwhile
        let n = r.range(2, 8);
        let mut c = client(r, &mut p, ClientKind::Http, n, r.clone().range(60, 90) * S);
        c.linger = false;
        e.clients.push(c);
    }
    let l = last(r);
    let mut pl = plan(r, profile, run, vec![e, l]);
    if big {
        pl.k.alloc_period = pl.k.alloc_period.max(2000);
        pl.k.max_steps = 20_000_000;
        pl.k.net.frag = 0;
        pl.k.net.cap = 1 << 20;
    }
    pl
}

///a database whose file is larger than what is written at once
fn huge(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let mut p = Pool::new(r, 2, 2);
    p.reads = 20;
    // whole numbers: other types take long to compress
    let mut big = || MVal::Arr((0..r.range(60_000, 90_000)).map(|_| MVal::Int((u128::from(r.next() | 1 << 63) << 64 | u128::from(r.next())).to_string())).collect());
    let db = p.names[0].clone();
    let mut steps = vec![];
    for k in 0..2 {
        let (key, val) = (format!("big{k}"), big());
        steps.push(step(Op::AddKv { db: db.clone(), key, val, create: true, over: true }));
    }
    if run == 5 || run == 6 {
        p.names.remove(0);
    }
    let mut c = client(r, &mut p, ClientKind::Http, 3, 0);
    for s in &mut c.steps {
        s.delay = r.range(0, 9 * S);
    }
    let at = r.us(3);
    for s in steps {
        c.steps.insert(at.min(c.steps.len()), s);
    }
    // the same one in every check; the second with errors whilst it is written again
    let first = run == 5 || run == 6;
    let when = match r.below(3) {
        0 if !first => When::FsOp(r.range(1, 40), r.below(3) as u8),
        _ => When::Done(r.below(24 * S)),
    };
    let end = match r.below(4) {
        _ if first => graceful(r, 0),
        0 => End::Power { when },
        1 => End::Kill { when },
        _ => graceful(r, 0),
    };
    let mut e = epoch(vec![c], end);
    match r.below(4) {
        _ if run == 6 => {
            let from = r.range(11 * S, 19 * S);
            e.faults.push(Fault::Disk { from, to: 1000 * S, ops: OP_WRITE, errno: *r.pick(&[libc::ENOSPC, libc::EIO]), percent: 100, path: None, max: u64::MAX });
            e.end = End::Kill { when: When::At(r.range(25 * S, 28 * S)) };
        }
        _ if first => {}
        0 => e.faults.push(disk_fault(r, 2 * S, 40 * S)),
        1 => e.faults.push(Fault::Short { from: 0, to: 300 * S, ops: OP_WRITE | OP_READ, percent: 50 }),
        _ => {}
    }
    let es = vec![e, last(r)];
    let mut pl = plan(r, profile, run, es);
    pl.k.alloc_period = pl.k.alloc_period.max(2000);
    pl.k.max_steps = 20_000_000;
    pl.k.net.frag = 0;
    pl.k.net.cap = 1 << 20;
    pl
}

///can be typed in one line, and shown in one
fn typable_text(s: &str) -> bool {
    !s.is_empty() && s.len() < 400 && !s.chars().any(|c| c.is_control() || matches!(c, '│' | '┆' | '❯' | '›' | '\u{2028}' | '\u{2029}'))
}
fn files_in(v: &MVal) -> usize {
    match v {
        MVal::Bin(_) => 1,
        MVal::Arr(v) => v.iter().map(files_in).sum(),
        MVal::Map(m) => m.values().map(files_in).sum(),
        _ => 0,
    }
}
fn depth_of(v: &MVal) -> usize {
    match v {
        MVal::Arr(v) => 1 + v.iter().map(depth_of).max().unwrap_or(0),
        MVal::Map(m) => 1 + m.values().map(depth_of).max().unwrap_or(0),
        _ => 0,
    }
}
fn nodes(v: &MVal) -> usize {
    1 + match v {
        MVal::Arr(v) => v.iter().map(nodes).sum(),
        MVal::Map(m) => m.values().map(nodes).sum(),
        _ => 0,
    }
}
///what somebody can enter
fn typable(v: &MVal) -> bool {
    let f64_ok = |b: u64| format!("{:?}", f64::from_bits(b)).parse::<f64>().map(f64::to_bits) == Ok(b);
    match v {
        MVal::Char(c) => char::from_u32(*c).is_some_and(|c| typable_text(&c.to_string())),
        MVal::Str(s) | MVal::Json(s) => typable_text(s),
        MVal::Bin(b) => b.0.len() < 5000,
        MVal::F64(b) => f64_ok(*b),
        MVal::F32(b) => format!("{:?}", f32::from_bits(*b)).parse::<f32>().map(f32::to_bits) == Ok(*b),
        MVal::Polar(a, b) => f64_ok(*a) && f64_ok(*b),
        MVal::Arr(v) => v.len() < 14 && v.iter().all(typable),
        MVal::Map(m) => m.len() < 14 && m.iter().all(|(k, x)| typable_text(k) && typable(x)),
        _ => true,
    }
}
fn typable_val(r: &mut Rng, p: &mut Pool) -> MVal {
    if r.chance(1, 24) {
        // longer than usual
        let n = r.range(5, 12);
        let mut i = || {
            p.fresh += 1;
            MVal::Int(p.fresh.to_string())
        };
        return if r.coin() {
            MVal::Arr((0..n).map(|_| i()).collect())
        } else {
            MVal::Map((0..n).map(|x| (format!("m{x}"), i())).collect())
        };
    }
    for _ in 0..30 {
        let v = if r.coin() { vals::val(r, SMALL.depth, SMALL) } else { p.val(r) }.norm();
        if typable(&v) && files_in(&v) < 12 && depth_of(&v) < 8 && nodes(&v) < 30 {
            return v;
        }
    }
    p.fresh += 1;
    MVal::Int(p.fresh.to_string())
}
///comes out of a file with JSON as it went in
fn in_json(v: &MVal) -> bool {
    let stable = |b: u64| {
        let f = f64::from_bits(b);
        let t = format!("{f:?}");
        f.is_finite() && serde_json::from_str::<serde_json::Value>(&t).ok().and_then(|x| x.as_f64()).map(f64::to_bits) == Some(b)
    };
    match v {
        MVal::Str(_) | MVal::Bool(_) | MVal::Null | MVal::Tz(_) | MVal::V4(_) | MVal::V6(_) => true,
        MVal::Bin(b) => b.0.len() < 5000,
        MVal::Int(_) | MVal::Cart(..) => J::of(v, true).is_some(),
        MVal::F64(b) => stable(*b),
        MVal::Polar(a, b) => stable(*a) && stable(*b),
        MVal::Time(y, ..) => (0..=9999).contains(y),
        MVal::Arr(v) => v.iter().all(in_json),
        MVal::Map(m) => !m.contains_key("souris_type") && m.values().all(in_json),
        MVal::Char(_) | MVal::Json(_) | MVal::F32(_) => false,
    }
}
fn json_content(r: &mut Rng, p: &mut Pool) -> Content {
    let n = if r.chance(1, 20) { 40 } else { r.below(6) };
    let mut c = Content::new();
    for i in 0..n {
        let kx = if n < 10 && r.chance(3, 4) { p.key(r) } else { format!("c{i}") };
        for _ in 0..20 {
            let v = if r.coin() { vals::val(r, MEDIUM.depth.min(3), SMALL) } else { p.val(r) }.norm();
            if in_json(&v) && depth_of(&v) < 60 {
                c.insert(kx, v);
                break;
            }
        }
    }
    c
}
fn typist_ops(r: &mut Rng, p: &mut Pool, single: bool, n: u64) -> Vec<Step> {
    let think = *r.pick(&[0, 0, 50 * MS, S, 5 * S]);
    (0..n)
        .map(|i| {
            let db = p.name(r);
            let at = |r: &mut Rng, p: &Pool| Where {
                new: r.coin(),
                db: db.clone(),
                over: single || r.coin(),
                other: if single {
                    db.clone()
                } else if r.coin() {
                    p.name(r)
                } else {
                    format!("other{i}")
                },
                reserved: r.chance(1, 8),
            };
            let key = p.key(r);
            let go = r.chance(5, 6);
            let cmd = match r.below(14) {
                0 => Cmd::Create { db, clear: r.coin() },
                1 | 2 => Cmd::View { db },
                3..=6 => Cmd::Add { at: at(r, p), key, val: typable_val(r, p), go },
                7 => Cmd::Remove { db, key, go },
                8 => Cmd::Update { db, key, val: typable_val(r, p), go },
                9 | 10 => Cmd::Export { db, types: r.coin() },
                11 | 12 => Cmd::Import { at: at(r, p), content: json_content(r, p), broken: r.chance(1, 10) },
                _ => Cmd::Drop { db },
            };
            let leaves = if r.chance(1, 10) { r.range(1, 12) } else { 0 };
            let cut = if r.chance(1, 8) { r.logrange(1, 24) } else { 0 };
            Step { delay: delay(r), op: Op::Mouse { cmd, think, leaves, cut }, net: NetOpts::default() }
        })
        .collect()
}
///after that moment, and nothing that is counted from the start
fn net_fault_later(r: &mut Rng, from: u64) -> Fault {
    loop {
        let at = from + r.logrange(MS, 20 * S);
        let f = net_fault(r, at);
        if !matches!(f, Fault::NetCut { .. }) {
            return f;
        }
    }
}
///somebody who uses the command line client, while others use the daemon
fn command_line(r: &mut Rng, profile: &str, run: u64) -> Plan {
    let single = r.chance(1, 5);
    let mut p = {
        let n = if single { 1 } else { r.range(1, 4) as usize };
        let kx = r.range(1, 6) as usize;
        Pool::new(r, n, kx)
    };
    for (i, n) in p.names.iter_mut().enumerate() {
        if !typable_text(n) || PINNED.contains(&n.as_str()) {
            *n = format!("base{i}");
        }
    }
    for (i, n) in p.keys.iter_mut().enumerate() {
        if !typable_text(n) {
            *n = format!("key {i}");
        }
    }
    if r.chance(1, 4) {
        // hard to tell from another one
        let kx = p.key(r);
        let like = match r.below(4) {
            0 => kx.to_uppercase(),
            1 => format!("{kx} "),
            2 => format!(" {kx}"),
            _ => format!("{kx}{kx}"),
        };
        if !p.keys.contains(&like) && like.len() < 200 {
            p.keys.push(like);
        }
    }
    if r.chance(1, 6) {
        // what a file with something else than an object becomes
        p.keys.push("JSON".into());
    }
    if r.chance(1, 10) {
        let i = r.us(p.names.len());
        let n = (*r.pick(&[" ", "  ", " x", "x ", "X"])).to_string();
        if !p.names.contains(&n) {
            p.names[i] = n;
        }
    }
    let stall = r.chance(1, 5);
    let begin = if stall { 30 * S } else { 2 * S };
    let lives = r.range(1, 2);
    let mut es = vec![];
    for _ in 0..lives {
        let mut cl = vec![];
        if !single {
            let steps = PINNED.iter().map(|n| step(Op::AddContent { db: (*n).to_string(), over: true, content: p.content(r) })).collect();
            cl.push(Client { kind: ClientKind::Http, start: 0, timeout: 100 * S, steps, linger: false });
        }
        let start = begin + r.logrange(US, S);
        for _ in 0..r.below(3) {
            let kind = kinds(r);
            let n = r.range(2, 8);
            let at = if r.coin() { r.below(begin) } else { start + r.logrange(MS, 20 * S) };
            let mut c = client(r, &mut p, kind, n, at);
            if r.coin() {
                for s in &mut c.steps {
                    s.delay = r.logrange(MS, 3 * S);
                }
            }
            cl.push(c);
        }
        let n = r.range(2, 6);
        let steps = typist_ops(r, &mut p, single, n);
        cl.push(Client { kind: ClientKind::Mouse, start, timeout: 100 * S, steps, linger: false });
        let acks = r.range(3, 20);
        let when = When::Acks(acks, r.logrange(MS, 3 * S));
        let end = match r.below(10) {
            0 => End::Kill { when },
            1 => End::Graceful { sig: sig(r), when },
            _ => graceful(r, 0),
        };
        let mut e = epoch(cl, end);
        if r.chance(1, 5) {
            for _ in 0..r.range(1, 3) {
                let f = net_fault_later(r, begin);
                e.faults.push(f);
            }
        }
        if stall {
            let to = begin + r.logrange(S, 50 * S);
            e.faults.push(disk_stall(r, 2 * S, to));
        }
        es.push(e);
    }
    es.push(last(r));
    plan(r, profile, run, es)
}

pub fn make(profile: &str, seed: u64, run: u64) -> Plan {
    let mut pl = make_plain(profile, seed, run);
    if matches!(profile, "P01" | "P02" | "P06" | "P09" | "P10" | "P11" | "P13" | "P16" | "P18") {
        let mut r = Rng::new(mix(profile, seed, run) ^ 0x6a09_e667_f3bc_c908);
        for e in &mut pl.epochs {
            gather(&mut r, &mut e.clients);
        }
    }
    pl
}
fn make_plain(profile: &str, seed: u64, run: u64) -> Plan {
    let mut r = Rng::new(mix(profile, seed, run));
    let r = &mut r;
    if matches!(profile, "P04" | "P05" | "P10" | "P08") && (run == 5 || run == 6 && profile == "P10" || r.chance(1, 2500)) || profile == "huge" {
        return huge(r, profile, run);
    }
    vals::budget(if r.chance(1, 40) { 300_000 } else { 40_000 });
    match profile {
        "P01" => {
            if run % 4 == 3 {
                freshness(r, profile, run)
            } else {
                concurrency(r, profile, run)
            }
        }
        "P02" => {
            if run % 3 == 2 {
                concurrency(r, profile, run)
            } else {
                freshness(r, profile, run)
            }
        }
        "P03" => {
            if run % 4 == 3 {
                concurrency(r, profile, run)
            } else {
                outcomes(r, profile, run)
            }
        }
        "P04" => {
            if run % 3 == 2 {
                fidelity(r, profile, run)
            } else {
                restarts(r, profile, run)
            }
        }
        "P05" => fidelity(r, profile, run),
        "P06" => shutdown_loses_nothing(r, profile, run),
        "P07" => crashes(r, profile, run, false),
        "P08" => crashes(r, profile, run, true),
        "P09" => window(r, profile, run),
        "P10" => disk_errors(r, profile, run),
        "P11" => removals(r, profile, run),
        "P12" => confinement(r, profile, run),
        "P13" => isolation(r, profile, run),
        "P14" => malformed(r, profile, run),
        "P15" => damage(r, profile, run),
        "P16" => abandoned(r, profile, run),
        "P17" => liveness(r, profile, run),
        "P18" => shutdown_finishes(r, profile, run),
        "P19" => library(r, profile, run, ClientKind::Async),
        "P20" => library(r, profile, run, ClientKind::Sync),
        "P21" => read_errors(r, profile, run),
        "P22" => crate::golden::plan(r, profile, run),
        "P23" => failing_starts(r, profile, run),
        "P24" => endurance(r, profile, run),
        "P25" => command_line(r, profile, run),
        _ => panic!("unknown profile {profile}"),
    }
}

// for the golden data
pub fn golden_base(r: &mut Rng, profile: &str, run: u64, epochs: Vec<Epoch>) -> Plan {
    plan(r, profile, run, epochs)
}
pub fn look(r: &mut Rng) -> Epoch {
    last(r)
}
pub fn spice_client(r: &mut Rng, c: &mut Client, percent: u64) {
    spice(r, c, percent);
}
pub fn grace(r: &mut Rng, d: u64) -> End {
    graceful(r, d)
}
pub fn simple_epoch(c: Vec<Client>, e: End) -> Epoch {
    epoch(c, e)
}
