//! Decides whether what happened in a run can be explained by the properties.
use crate::client::{op_text, out_text, AUDITOR};
use crate::gen::{S, SCRATCH};
use crate::json::{self, J};
use crate::lin::{self, HOp, Kind, Seen, States, Verdict, A, INF, M};
use crate::mval::{norm_content, MVal};
use crate::plan::*;
use crate::result::*;
use crate::vals;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    pub tag: String,
    pub epoch: usize,
    pub detail: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Judgement {
    pub viols: Vec<Viol>,
    pub harness: Vec<String>,
    ///histories which were too expensive to decide
    pub undecided: u64,
    ///histories checked, and the answers in them
    pub histories: u64,
    pub answers: u64,
    ///recovered states compared with the history before
    pub recoveries: u64,
}
impl Judgement {
    fn v(&mut self, tag: &str, epoch: usize, detail: String) {
        if self.viols.iter().filter(|v| v.tag == tag).count() < 4 {
            self.viols.push(Viol { tag: tag.into(), epoch, detail });
        }
    }
}

const BUDGET: u64 = 60_000;
const JOINT_BUDGET: u64 = 20_000;
///an answer has to come within that time when nothing is broken any more
///that much more memory is no longer noise
const HOARD: i64 = 800 << 10;
const PATIENCE: u64 = 60 * S;

#[derive(Default)]
struct Intern {
    dbs: Vec<String>,
    dbx: BTreeMap<String, usize>,
    keys: BTreeMap<String, u32>,
    vals: BTreeMap<MVal, u32>,
    vshort: Vec<String>,
    knames: Vec<String>,
    st: States,
    ///values and keys by number
    back: Rc<RefCell<(Vec<MVal>, Vec<String>)>>,
    ///everything that was ever put somewhere
    written: BTreeSet<(usize, u32, u32)>,
}
impl Intern {
    fn db(&mut self, n: &str) -> usize {
        if let Some(&i) = self.dbx.get(n) {
            return i;
        }
        self.dbs.push(n.to_string());
        self.dbx.insert(n.to_string(), self.dbs.len() - 1);
        self.dbs.len() - 1
    }
    fn key(&mut self, k: &str) -> u32 {
        if let Some(&i) = self.keys.get(k) {
            return i;
        }
        let i = self.keys.len() as u32;
        self.keys.insert(k.to_string(), i);
        self.knames.push(k.to_string());
        self.back.borrow_mut().1.push(k.to_string());
        i
    }
    fn val(&mut self, v: &MVal) -> u32 {
        if let Some(&i) = self.vals.get(v) {
            return i;
        }
        let i = self.vals.len() as u32;
        self.vals.insert(v.clone(), i);
        self.vshort.push(v.short());
        self.back.borrow_mut().0.push(v.clone());
        i
    }
    fn content(&mut self, c: &Content) -> Vec<(u32, u32)> {
        let mut v: Vec<(u32, u32)> = c.iter().map(|(k, x)| (self.key(k), self.val(x))).collect();
        v.sort_unstable();
        v
    }
    fn state(&mut self, c: Option<&Content>) -> u32 {
        let d = c.map(|c| self.content(c));
        self.st.id(d)
    }
    fn show(&self, s: u32) -> String {
        match &*self.st.get(s) {
            None => "absent".into(),
            Some(v) => {
                let t: Vec<String> =
                    v.iter().take(8).map(|(k, x)| format!("{:?}={}", self.knames[*k as usize], self.vshort[*x as usize])).collect();
                format!("{{{}}} ({} keys)", t.join(", "), v.len())
            }
        }
    }
}

pub fn db_of(op: &Op) -> Option<&str> {
    match op {
        Op::AddDb { db, .. }
        | Op::AddContent { db, .. }
        | Op::RmDb { db }
        | Op::ClearDb { db }
        | Op::AddKv { db, .. }
        | Op::RmKv { db, .. }
        | Op::GetVal { db, .. }
        | Op::GetDb { db }
        | Op::PutBody { db, .. }
        | Op::PutValueBody { db, .. } => Some(db),
        _ => None,
    }
}

///one epoch that did something, or that at least was looked at
struct Ep {
    idx: usize,
    ///state found at the start, for each database; None: not known
    found: Option<Vec<u32>>,
}

fn model_op(it: &mut Intern, op: &Op) -> Option<(usize, M)> {
    let db = it.db(db_of(op)?);
    let bad = !vals::acceptable(db_of(op)?);
    let m = match op {
        Op::AddDb { over, .. } => M::AddDb { over: *over, bad },
        Op::AddContent { over, content, .. } | Op::PutBody { over, content, .. } => {
            M::AddContent { over: *over, bad, content: it.content(&norm_content(content)) }
        }
        Op::RmDb { .. } => M::RmDb,
        Op::ClearDb { .. } => M::ClearDb,
        Op::AddKv { key, val, create, over, .. } => {
            M::AddKv { k: it.key(key), v: it.val(&val.norm()), create: *create, over: *over, bad }
        }
        Op::PutValueBody { key, val, .. } => M::AddKv { k: it.key(key), v: it.val(&val.norm()), create: true, over: true, bad },
        Op::RmKv { key, .. } => M::RmKv { k: it.key(key) },
        Op::GetVal { key, .. } => M::GetVal { k: it.key(key) },
        Op::GetDb { .. } => M::GetDb,
        _ => return None,
    };
    Some((db, m))
}

///how a value is shown on one line
fn plainly(v: &MVal) -> Option<String> {
    plain_text(v).filter(|t| t.len() < 2000)
}
fn plain_text(v: &MVal) -> Option<String> {
    Some(match v {
        MVal::Char(c) => format!("{:?}", char::from_u32(*c)?),
        MVal::Str(s) => format!("{s:?}"),
        MVal::Bool(b) => b.to_string(),
        MVal::Int(s) | MVal::Tz(s) | MVal::Json(s) => s.clone(),
        MVal::Null => "null".into(),
        MVal::F32(b) => f32::from_bits(*b).to_string(),
        MVal::F64(b) => f64::from_bits(*b).to_string(),
        MVal::V4(a) => std::net::Ipv4Addr::from(*a).to_string(),
        MVal::V6(a) => std::net::Ipv6Addr::from(*a).to_string(),
        MVal::Cart(a, b) if b.starts_with('-') => format!("{a}{b}i"),
        MVal::Cart(a, b) => format!("{a}+{b}i"),
        MVal::Polar(a, b) => format!("{} e^({}i)", f64::from_bits(*a), f64::from_bits(*b)),
        MVal::Time(..) => json::time_text(v)?.0,
        MVal::Bin(b) => {
            let x: Vec<String> = b.0.iter().map(|x| format!("{x:#X}")).collect();
            format!("[{}]", x.join(", "))
        }
        MVal::Arr(v) => {
            let x: Option<Vec<String>> = v.iter().map(plain_text).collect();
            format!("[{}]", x?.join(", "))
        }
        MVal::Map(_) => return None,
    })
}
///every key has its row; blanks around keys and values cannot be seen
fn rows_fit(rows: &[(String, Option<String>)], c: &[(u32, u32)], vals: &[MVal], keys: &[String]) -> bool {
    fn go(rows: &[(String, Option<String>)], used: &mut [bool], c: &[(String, Option<String>)]) -> bool {
        let Some((k, v)) = c.first() else { return true };
        for i in 0..rows.len() {
            let fits = match (v, &rows[i].1) {
                (Some(a), Some(b)) => a == b,
                _ => true,
            };
            if !used[i] && rows[i].0 == *k && fits {
                used[i] = true;
                if go(rows, used, &c[1..]) {
                    return true;
                }
                used[i] = false;
            }
        }
        false
    }
    if rows.len() != c.len() {
        return false;
    }
    let c: Vec<(String, Option<String>)> = c
        .iter()
        .map(|&(k, v)| (keys[k as usize].trim().to_string(), plainly(&vals[v as usize]).map(|t| t.trim().to_string())))
        .collect();
    go(rows, &mut vec![false; rows.len()], &c)
}

fn seen_of(it: &mut Intern, status: u16, b: &Body) -> Seen {
    let back = it.back.clone();
    match b {
        Body::Keys(v) => {
            let v = v.clone();
            return Seen::Such(lin::Part(Rc::new(move |c| {
                let names = &back.borrow().1;
                let mut x: Vec<&str> = c.iter().map(|e| names[e.0 as usize].as_str()).collect();
                x.sort_unstable();
                x == v
            })));
        }
        Body::Table(rows) => {
            let rows = rows.clone();
            return Seen::Such(lin::Part(Rc::new(move |c| {
                let b = back.borrow();
                rows_fit(&rows, c, &b.0, &b.1)
            })));
        }
        Body::Json { types, text } => {
            let types = *types;
            let j = text.as_ref().map(|t| J::parse(t));
            return Seen::Such(lin::Part(Rc::new(move |c| {
                let b = back.borrow();
                let content: Content = c.iter().map(|&(k, v)| (b.1[k as usize].clone(), b.0[v as usize].clone())).collect();
                match (J::export(&content, types), &j) {
                    (None, None) => true,
                    (Some(x), Some(Some(y))) => x.fits(y),
                    _ => false,
                }
            })));
        }
        _ => {}
    }
    let a = match b {
        Body::Val(v) => A::Val(it.val(v)),
        Body::Store(c) => A::Store(it.state(Some(c))),
        Body::Creation(c) => match lin::CREATION.iter().position(|x| x == c) {
            Some(i) => A::Created(i as u8),
            None => A::Created(99),
        },
        Body::Bad(_) => return Seen::Statuses(vec![status]),
        _ => A::None,
    };
    Seen::Resp(status, a)
}

fn net_faults(e: &Epoch) -> bool {
    e.faults.iter().any(|f| matches!(f, Fault::NetReset { .. } | Fault::NetCut { .. } | Fault::Accept { .. }))
}
fn relevant(f: &Fault, db: &str) -> bool {
    match f {
        Fault::Disk { path: Some(p), .. } => format!("/{db}.sdb").contains(p.as_str()) || "/meta.sdb".contains(p.as_str()),
        Fault::Disk { .. } => true,
        _ => false,
    }
}
fn last_disk_fault(e: &Epoch, r: &EpochResult, db: &str) -> u64 {
    e.faults.iter().enumerate().filter(|(_, f)| relevant(f, db)).map(|(i, _)| r.fault_last.get(i).copied().unwrap_or(0)).max().unwrap_or(0)
}
///how long file operations were under way between the two moments
fn busy(r: &EpochResult, from: u64, to: u64) -> u64 {
    r.fs_busy.iter().map(|&(a, b)| b.min(to).saturating_sub(a.max(from))).sum()
}

///the operations of an epoch as the model sees them, sorted by their start
fn history(it: &mut Intern, plan: &Plan, e: usize, r: &EpochResult) -> Vec<HOp> {
    let ghosts = net_faults(&plan.epochs[e]);
    let mut out = vec![];
    for (i, rec) in r.recs.iter().enumerate() {
        let text = || format!("[client {} #{i} {}..{}] {} -> {}", rec.client, rec.inv, rec.ret.map_or("".into(), |x| x.0.to_string()), op_text(&rec.op), out_text(&rec.out));
        if let Op::Names = rec.op {
            if let (Out::Resp(200, Body::Names(v)), Some((ret, _))) = (&rec.out, rec.ret) {
                let l = it.dbs.iter().map(|d| v.binary_search(d).is_ok()).collect();
                out.push(HOp { inv: rec.inv, ret, required: true, kind: Kind::Names(l), after: vec![], text: text() });
            }
            continue;
        }
        if db_of(&rec.op) == Some(SCRATCH) {
            continue;
        }
        let Some((db, m)) = model_op(it, &rec.op) else { continue };
        let mut required = true;
        let mut ret = rec.ret.map_or(INF, |x| x.0);
        let seen = match &rec.out {
            Out::Resp(s, _) if *s >= 500 || rec.ret.is_none() => Seen::Any,
            Out::Resp(s, b) => seen_of(it, *s, b),
            Out::OneOf(v) => Seen::Statuses(v.iter().map(|x| x.0).collect()),
            _ => Seen::Any,
        };
        if let Seen::Any = seen {
            if rec.not_sent || m.is_read() {
                continue;
            }
            required = false;
            ret = INF;
        }
        if rec.maybe_twice && ghosts && !rec.not_sent {
            out.push(HOp {
                inv: rec.inv,
                ret: INF,
                required: false,
                kind: Kind::Op { db, m: m.clone(), seen: Seen::Any },
                after: vec![],
                text: format!("(again) {}", text()),
            });
        }
        out.push(HOp { inv: rec.inv, ret, required, kind: Kind::Op { db, m, seen }, after: vec![], text: text() });
    }
    // some things are learnt later
    out.sort_by_key(|o| o.inv);
    out
}

fn of_db(h: &[HOp], db: usize) -> Vec<HOp> {
    h.iter()
        .filter(|o| match &o.kind {
            Kind::Op { db: d, .. } | Kind::Is { db: d, .. } => *d == db,
            Kind::Names(_) => true,
        })
        .cloned()
        .collect()
}

///virtual reads in front, with references fixed
fn with(h: &[HOp], extra: Vec<HOp>) -> Vec<HOp> {
    let mut all: Vec<(usize, HOp)> = extra.into_iter().enumerate().collect();
    let n = all.len();
    for (i, o) in h.iter().enumerate() {
        all.push((n + i, o.clone()));
    }
    all.sort_by_key(|x| (x.1.inv, x.0));
    let mut pos = vec![0; all.len()];
    for (p, x) in all.iter().enumerate() {
        pos[x.0] = p;
    }
    all.into_iter()
        .map(|(_, mut o)| {
            for a in &mut o.after {
                *a = pos[*a];
            }
            o
        })
        .collect()
}

fn outcome_text(r: &EpochResult) -> String {
    format!("{:?}{}", r.outcome, if r.panics.is_empty() { String::new() } else { format!("; {}", r.panics.join(" | ")) })
}

///the daemon would not start because it could not read its data, as it may
fn refused(e: &Epoch, r: &EpochResult) -> bool {
    let meta = e.damage.iter().any(|d| d.name() == "meta" && !matches!(d, Damage::Restore { .. }));
    !r.started && e.may_refuse && (r.last_disk_fault > 0 || r.last_fault > 0 || meta) && matches!(r.outcome, Outcome::Exited(c) if c != 0)
}

fn per_epoch(j: &mut Judgement, it: &Intern, plan: &Plan, i: usize, r: &EpochResult) {
    let e = &plan.epochs[i];
    let refused = refused(e, r);
    let crash = !matches!(e.end, End::Graceful { .. });
    for u in &r.unsupported {
        j.harness.push(format!("epoch {i}: unsupported: {u}"));
    }
    match &r.outcome {
        Outcome::Harness(h) => j.harness.push(format!("epoch {i}: {h}")),
        Outcome::Killed | Outcome::PowerLost => {}
        Outcome::Exited(0) if r.started && r.signal_seq > 0 => {}
        Outcome::Exited(_) if refused => {}
        Outcome::Exited(c) if r.signal_seq > 0 => {
            j.v("shutdown", i, format!("the daemon exited with {c} after the signal: {}", outcome_text(r)));
        }
        Outcome::Exited(_) if !r.started => j.v("start", i, format!("the daemon did not start: {}", outcome_text(r))),
        Outcome::Exited(_) | Outcome::Died(_) => {
            j.v(if r.started { "crash" } else { "start" }, i, format!("the daemon ended by itself: {}", outcome_text(r)));
        }
        Outcome::Deadlock => j.v("hang", i, "nothing can go on: every thread waits and no timer is set".into()),
        Outcome::CpuHang(x) => j.v("hang", i, format!("{x} computes without end")),
        Outcome::StepBudget => j.v("livelock", i, format!("{} scheduling points without coming to an end", r.steps)),
        Outcome::TimeBudget => {
            if r.liveness.is_empty() {
                j.v("hang", i, "the run does not come to an end in simulated time".into());
            }
        }
    }
    for l in &r.liveness {
        j.v(if l.starts_with("not listening") { "start" } else { "shutdown" }, i, l.clone());
    }
    if !refused {
        for p in &r.panics {
            j.v("panic", i, p.clone());
        }
    }
    if refused {
        for x in &r.changes {
            j.v("start-changed", i, format!("the daemon did not start, but changed files: {x}"));
        }
    }
    let mut before: Option<(u64, u64, i64)> = None;
    for rec in &r.recs {
        let Out::Resp(_, Body::Probe { fds, threads, live, strays }) = &rec.out else { continue };
        let strays: Vec<&String> = strays.iter().filter(|x| *x != "meta.sdb" && !x.strip_suffix(".sdb").is_some_and(|n| it.dbx.contains_key(n))).collect();
        if strays.len() > 3 + it.dbs.len() {
            j.v("leak", i, format!("{} files that belong to no database: {:?}", strays.len(), &strays[..4]));
        }
        if let Some((f, t, l)) = before {
            if *fds > f + 8 {
                j.v("leak", i, format!("the daemon had {f} open files, now with nobody connected it has {fds}"));
            }
            if *threads > t + 10 {
                j.v("leak", i, format!("the daemon had {t} threads, now with nobody connected it has {threads}"));
            }
            if *live > l + HOARD {
                j.v("leak", i, format!("the daemon held {} KiB, now with databases of the same size {} KiB", l >> 10, live >> 10));
            }
        } else {
            before = Some((*fds, *threads, *live));
        }
    }
    for x in &r.escapes {
        j.v("escape", i, format!("outside of the data directory: {x}"));
    }
    for x in &r.client_panics {
        j.v("client-panic", i, x.clone());
    }
    if r.stats.peak_live > 512 << 20 {
        j.v("memory", i, format!("{} MiB in use at once", r.stats.peak_live >> 20));
    }
    if !crash && r.outcome == Outcome::Exited(0) && r.signal_seq > 0 && !r.attempted_save_after_signal {
        j.v("shutdown", i, "no final save was attempted after the signal".into());
    }

    // the answers one by one
    let net = net_faults(e);
    let planned = e
        .faults
        .iter()
        .filter(|f| matches!(f, Fault::NetStall { .. } | Fault::NetReset { .. } | Fault::NetLat { .. } | Fault::Accept { .. }))
        .map(|f| r.start + f.ends())
        .max()
        .unwrap_or(0);
    let calm = planned.max(r.last_fault);
    let rm_may_fail = e.faults.iter().enumerate().any(|(k, f)| matches!(f, Fault::Disk { .. }) && r.fault_hits.get(k).copied().unwrap_or(0) > 0);
    for (n, rec) in r.recs.iter().enumerate() {
        let what = || format!("client {} #{n}: {} -> {}", rec.client, op_text(&rec.op), out_text(&rec.out));
        let end_t = rec.ret.map_or(r.now, |x| x.1);
        let from = rec.inv_t.max(calm.min(end_t));
        let junk = matches!(rec.op, Op::Junk { .. });
        // errors of the disk are no reason to keep anybody waiting
        let errors = rec.inv_t.max(planned.max(r.last_delay).min(end_t));
        let from = if matches!(rec.op, Op::Mouse { .. }) { from } else { from.min(errors) };
        if end_t.saturating_sub(from) > PATIENCE + r.stall_total && !junk {
            j.v("slow", i, format!("{} s without an answer: {}", (end_t - from) / S, what()));
        }
        match &rec.out {
            Out::Wrong(w) => j.v("wrong-answer", i, format!("{}: {w}", what())),
            Out::Lost(why) if !junk => {
                let going = r.signal_t > 0 && end_t >= r.signal_t;
                let dead = r.death_t > 0 && end_t >= r.death_t;
                let slow = why == "timeout" && end_t.saturating_sub(from) > PATIENCE;
                let fine = rec.ret.is_none() || rec.not_sent && why == "aborted" || why == "aborted" || net || going || dead;
                let any = matches!(&rec.op, Op::Raw { expect: Expect::Any | Expect::Rejected, .. });
                // a refusal before all of the body was read: what still comes resets the connection, and the answer can be lost
                // (also with an empty body, when it is sent in chunks)
                let early = matches!(&rec.op, Op::Raw { body, method, .. } if !body.0.is_empty() || method != "GET") && why != "timeout";
                if (!fine && !any && !early) || slow && !going && !dead {
                    j.v("unanswered", i, what());
                }
            }
            Out::Resp(s, b) => {
                if *s >= 500 && !(rm_may_fail && matches!(rec.op, Op::RmDb { .. })) {
                    j.v("server-error", i, what());
                }
                if let Body::Bad(x) = b {
                    j.v("bad-body", i, format!("{}: {x}", what()));
                }
                if let Op::Raw { expect, .. } = &rec.op {
                    let ok = match expect {
                        Expect::Status(v) => v.contains(s),
                        Expect::Rejected => *s >= 400,
                        Expect::Any => true,
                    };
                    if !ok {
                        j.v("wrong-status", i, format!("{}; expected {expect:?}", what()));
                    }
                }
                if let (Op::Names, Body::Names(v)) = (&rec.op, b) {
                    if v.windows(2).any(|w| w[0] == w[1]) {
                        j.v("names", i, format!("a name is listed twice: {}", what()));
                    }
                    for x in v {
                        if !it.dbx.contains_key(x) && x != SCRATCH {
                            j.v("phantom", i, format!("{x:?} was never created: {}", what()));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

struct Link<'a> {
    prev: usize,
    ///what the crashes since then amount to
    power: bool,
    kill: bool,
    now: usize,
    damaged: &'a BTreeSet<String>,
}

pub fn judge(plan: &Plan, results: &[EpochResult]) -> Judgement {
    let mut j = Judgement::default();
    let mut it = Intern::default();
    // the universe
    if let Some(p) = &plan.preset {
        for n in p.content.keys() {
            it.db(n);
        }
    }
    for e in &plan.epochs {
        for s in e.clients.iter().flat_map(|c| &c.steps) {
            if let Some(d) = db_of(&s.op) {
                if d != SCRATCH {
                    it.db(d);
                }
            }
        }
    }
    for d in crate::mouse::databases(plan) {
        if d != SCRATCH {
            it.db(&d);
        }
    }
    for d in results.iter().flat_map(|r| &r.recs).filter_map(|x| db_of(&x.op)) {
        if d != SCRATCH {
            it.db(d);
        }
    }
    for (i, r) in results.iter().enumerate() {
        per_epoch(&mut j, &it, plan, i, r);
    }
    if !j.harness.is_empty() {
        return j;
    }
    // what was put where
    let mut put = vec![];
    if let Some(p) = &plan.preset {
        for (n, c) in &p.content {
            put.push((n.clone(), norm_content(c)));
        }
    }
    for e in &plan.epochs {
        for s in e.clients.iter().flat_map(|c| &c.steps) {
            match &s.op {
                Op::AddContent { db, content, .. } | Op::PutBody { db, content, .. } => put.push((db.clone(), norm_content(content))),
                Op::AddKv { db, key, val, .. } | Op::PutValueBody { db, key, val, .. } => {
                    put.push((db.clone(), BTreeMap::from([(key.clone(), val.norm())])));
                }
                _ => {}
            }
        }
    }
    // somebody at a terminal decides later
    for r in results {
        for rec in &r.recs {
            match &rec.op {
                Op::AddContent { db, content, .. } => put.push((db.clone(), norm_content(content))),
                Op::AddKv { db, key, val, .. } => put.push((db.clone(), BTreeMap::from([(key.clone(), val.norm())]))),
                _ => {}
            }
        }
    }
    for (db, c) in put {
        if db == SCRATCH {
            continue;
        }
        let d = it.db(&db);
        for (k, v) in it.content(&c) {
            it.written.insert((d, k, v));
        }
    }

    let n = it.dbs.len();
    let absent = it.st.id(None);
    let mut damaged: BTreeSet<String> = BTreeSet::new();
    let mut prev: Option<Ep> = None;
    let mut carry: Vec<Carry> = vec![Some(BTreeSet::new()); n];
    let (mut kill, mut power) = (false, false);
    for (i, r) in results.iter().enumerate() {
        let e = &plan.epochs[i];
        damaged.extend(e.damage.iter().map(|d| d.name().to_string()));
        // values nobody wrote
        for (x, rec) in r.recs.iter().enumerate() {
            let Some(db) = db_of(&rec.op) else { continue };
            if db == SCRATCH || damaged.contains(db) {
                continue;
            }
            let mut bad = vec![];
            match (&rec.op, &rec.out) {
                (Op::GetVal { key, .. }, Out::Resp(_, Body::Val(v))) => {
                    let t = (it.db(db), it.key(key), it.val(v));
                    if !it.written.contains(&t) {
                        bad.push(format!("{key:?} = {}", v.short()));
                    }
                }
                (Op::GetDb { .. }, Out::Resp(_, Body::Store(c))) => {
                    for (key, v) in c {
                        let t = (it.db(db), it.key(key), it.val(v));
                        if !it.written.contains(&t) {
                            bad.push(format!("{key:?} = {}", v.short()));
                        }
                    }
                }
                _ => {}
            }
            if !bad.is_empty() {
                j.v("value-altered", i, format!("client {} #{x} reads from {db:?} what was never put there: {}", rec.client, bad[0]));
            }
        }
        if r.outcome == Outcome::Harness(String::new()) || !r.started {
            // nobody was there; a crash then is one for the epoch before
            match r.outcome {
                Outcome::PowerLost => power = true,
                Outcome::Killed => kill = true,
                _ => {}
            }
            continue;
        }
        // what the first look found
        let mut found = None;
        let mut look: Option<Vec<u32>> = None;
        let mut missing: BTreeSet<usize> = BTreeSet::new();
        for rec in r.recs.iter().filter(|x| x.client == AUDITOR) {
            match (&rec.op, &rec.out) {
                (Op::Names, Out::Resp(200, Body::Names(v))) => {
                    missing = (0..n).filter(|&d| v.binary_search(&it.dbs[d]).is_ok()).collect();
                    look = Some(vec![absent; n]);
                }
                (Op::GetDb { db }, Out::Resp(200, Body::Store(c))) if db != SCRATCH => {
                    if let (Some(&d), Some(l)) = (it.dbx.get(db), look.as_mut()) {
                        missing.remove(&d);
                        l[d] = it.state(Some(c));
                    }
                }
                _ => {}
            }
            if look.is_some() && missing.is_empty() {
                found = look.clone();
            }
        }
        if !missing.is_empty() {
            found = None;
        }
        let quiet = e.clients.is_empty() || r.recs.iter().all(|x| x.client == AUDITOR);
        if found.is_none() && quiet {
            match r.outcome {
                Outcome::PowerLost => power = true,
                Outcome::Killed => kill = true,
                _ => {}
            }
            if e.audit && !net_faults(e) && matches!(r.outcome, Outcome::Exited(0)) {
                j.v("bad-body", i, "the databases cannot be read after the start".into());
            }
            continue;
        }
        // the link to what was before
        match (&prev, &found) {
            (_, None) => carry = vec![None; n],
            (None, Some(f)) => {
                for d in 0..n {
                    if damaged.contains(&it.dbs[d]) {
                        continue;
                    }
                    let want = plan.preset.as_ref().and_then(|p| p.content.get(&it.dbs[d])).map(norm_content);
                    let w = it.state(want.as_ref());
                    if f[d] != w {
                        j.v("preset", i, format!("database {:?} should be {} and is {}", it.dbs[d], it.show(w), it.show(f[d])));
                    }
                }
            }
            (Some(p), Some(f)) => {
                let l = Link { prev: p.idx, power, kill, now: i, damaged: &damaged };
                let init = p.found.clone();
                match init {
                    Some(init) => {
                        link(&mut j, &mut it, plan, results, &l, &init, f, &carry);
                        older(&mut carry, &mut it, plan, results, &l, &init);
                    }
                    None => {
                        j.undecided += 1;
                        carry = vec![None; n];
                    }
                }
            }
        }
        // the history itself
        let init = match &found {
            Some(f) => Some(f.clone()),
            None if i == 0 && plan.preset.is_none() => Some(vec![absent; n]),
            None => None,
        };
        match &init {
            Some(f) => own_history(&mut j, &mut it, plan, i, r, f),
            None => j.undecided += 1,
        }
        kill = matches!(r.outcome, Outcome::Killed);
        power = matches!(r.outcome, Outcome::PowerLost);
        prev = Some(Ep { idx: i, found: init });
    }
    j
}

fn own_history(j: &mut Judgement, it: &mut Intern, plan: &Plan, e: usize, r: &EpochResult, init: &[u32]) {
    let h = history(it, plan, e, r);
    let n = it.dbs.len();
    // names seen by history() must cover the databases it interned meanwhile
    debug_assert_eq!(n, init.len());
    let mut fine = true;
    for d in 0..n {
        let hd = of_db(&h, d);
        if hd.is_empty() {
            continue;
        }
        j.histories += 1;
        j.answers += hd.len() as u64;
        match lin::check(&mut it.st, &hd, init, &[d], BUDGET) {
            Verdict::Yes => {}
            Verdict::Unknown => j.undecided += 1,
            Verdict::No(why) => {
                fine = false;
                // is it what was read, or only what the changes were said to have done?
                let loose: Vec<HOp> = hd
                    .iter()
                    .map(|o| {
                        let mut o = o.clone();
                        if let Kind::Op { m, seen, .. } = &mut o.kind {
                            if !m.is_read() {
                                *seen = Seen::Any;
                            }
                        }
                        o
                    })
                    .collect();
                let tag = match lin::check(&mut it.st, &loose, init, &[d], BUDGET) {
                    Verdict::Yes => "lin-status",
                    _ => "lin-read",
                };
                j.v(tag, e, format!("database {:?}: no order of the requests explains the answers: {why}", it.dbs[d]));
            }
        }
    }
    let names = h.iter().filter(|o| matches!(o.kind, Kind::Names(_))).count();
    if fine && names > 1 && n > 1 && h.len() <= 120 {
        let all: Vec<usize> = (0..n).collect();
        match lin::check(&mut it.st, &h, init, &all, JOINT_BUDGET) {
            Verdict::Yes => {}
            Verdict::Unknown => j.undecided += 1,
            Verdict::No(why) => j.v("joint", e, format!("no order of the requests on all databases explains the lists of names: {why}")),
        }
    }
}

///the versions of a database that a loss of power may still bring back from before the last start; `None` is any
type Carry = Option<BTreeSet<u32>>;

fn older(carry: &mut [Carry], it: &mut Intern, plan: &Plan, results: &[EpochResult], l: &Link, init: &[u32]) {
    let r = &results[l.prev];
    let e = &plan.epochs[l.prev];
    for d in 0..it.dbs.len() {
        let name = it.dbs[d].clone();
        let fault = last_disk_fault(e, r, &name);
        if l.power || (matches!(r.outcome, Outcome::Exited(0)) && fault <= r.signal_t) {
            // what was found is what is on the disk
            carry[d] = Some(BTreeSet::new());
            continue;
        }
        let mut here = BTreeSet::from([init[d]]);
        let mut sure = false;
        for v in &r.views {
            let s = match v.dbs.get(&name) {
                Some(Some(c)) => it.state(Some(c)),
                _ => it.st.id(None),
            };
            if fault < v.t && r.now.saturating_sub(v.t) > S + busy(r, v.t, r.now) + r.stall_total {
                here.clear();
                sure = true;
            }
            here.insert(s);
        }
        match &mut carry[d] {
            Some(c) if !sure => c.extend(here),
            None if !sure => {}
            c => *c = Some(here),
        }
    }
}

///does the state found now follow from what happened before?
fn link(j: &mut Judgement, it: &mut Intern, plan: &Plan, results: &[EpochResult], l: &Link, init: &[u32], found: &[u32], carry: &[Carry]) {
    let r = &results[l.prev];
    let e = &plan.epochs[l.prev];
    let h = history(it, plan, l.prev, r);
    let crash_t = r.now;
    for d in 0..it.dbs.len() {
        let name = it.dbs[d].clone();
        if l.damaged.contains(&name) {
            continue;
        }
        j.recoveries += 1;
        let hd = of_db(&h, d);
        // its own problems were reported already
        match lin::check(&mut it.st, &hd, init, &[d], BUDGET) {
            Verdict::Yes => {}
            Verdict::Unknown => {
                j.undecided += 1;
                continue;
            }
            Verdict::No(_) => continue,
        }
        // what a start would have found at the last saves
        let mut saves: Vec<(u64, u64, u32)> = vec![];
        let mut bad = false;
        for v in &r.views {
            let s = match v.dbs.get(&name) {
                Some(None) => {
                    j.v("torn", l.prev, format!("after the save at {} the file of {name:?} cannot be read", v.seq));
                    bad = true;
                    break;
                }
                Some(Some(c)) => it.state(Some(c)),
                None => it.st.id(None),
            };
            match saves.last_mut() {
                Some(x) if x.2 == s => {
                    x.0 = v.seq;
                }
                _ => saves.push((v.seq, v.t, s)),
            }
        }
        if bad {
            continue;
        }
        let skip = saves.len().saturating_sub(3);
        let saves = saves.split_off(skip);
        let mut extra: Vec<HOp> = vec![];
        for (x, s) in saves.iter().enumerate() {
            extra.push(HOp {
                inv: 0,
                ret: s.0,
                required: true,
                kind: Kind::Is { db: d, state: s.2 },
                after: x.checked_sub(1).into_iter().collect(),
                text: format!("[saved at {}] {name:?} is {}", s.0, it.show(s.2)),
            });
        }
        if !extra.is_empty() {
            match lin::check(&mut it.st, &with(&hd, extra.clone()), init, &[d], BUDGET) {
                Verdict::Yes => {}
                Verdict::Unknown => {
                    j.undecided += 1;
                    continue;
                }
                Verdict::No(why) => {
                    j.v("saved-state", l.prev, format!("what was saved is not a version that the database had, in this order: {why}"));
                    continue;
                }
            }
        }
        let fault = last_disk_fault(e, r, &name);
        // after which save, and not before which moment
        let mut after = extra.len().checked_sub(1);
        if l.power {
            // the last save which had the time to be complete
            let durable = |x: usize| fault < saves[x].1 && crash_t.saturating_sub(saves[x].1) > S + busy(r, saves[x].1, crash_t) + r.stall_total;
            while let Some(x) = after {
                if durable(x) {
                    break;
                }
                after = x.checked_sub(1);
            }
        }
        let graceful = !l.power && !l.kill && matches!(r.outcome, Outcome::Exited(0));
        // the operations whose effect has to be there
        let mut floor: Vec<usize> = vec![];
        let mut why_floor = "";
        let acked = |h: &[HOp], until: u64| -> Vec<usize> {
            let x = h.iter().enumerate().filter(|(_, o)| o.required && o.ret <= until && matches!(o.kind, Kind::Op { .. }));
            x.map(|(i, _)| i).collect()
        };
        // also without power afterwards: the last save was complete
        if matches!(r.outcome, Outcome::Exited(0)) && fault <= r.signal_t {
            floor = acked(&hd, r.end_seq);
            why_floor = "graceful";
        } else {
            if !l.power {
                for (x, o) in hd.iter().enumerate() {
                    if matches!(&o.kind, Kind::Op { m: M::RmDb, seen: Seen::Resp(200, _), .. }) {
                        floor.push(x);
                        why_floor = "removed";
                    }
                }
            }
            let slack = 13 * S + busy(r, crash_t.saturating_sub(70 * S), crash_t) + r.stall_total;
            let cut = crash_t.saturating_sub(slack);
            if fault < cut && cut > r.start {
                let last = r.recs.iter().filter_map(|x| x.ret).filter(|x| x.1 <= cut).map(|x| x.0).max().unwrap_or(0);
                let w = acked(&hd, last);
                if !w.is_empty() {
                    if floor.iter().all(|x| w.contains(x)) {
                        why_floor = "window";
                    }
                    floor.extend(w);
                }
            }
        }
        let kind = if l.power {
            "power"
        } else if graceful {
            "graceful"
        } else {
            "kill"
        };
        let mut probe = |floor: &[usize], after: Option<usize>| -> Verdict {
            let mut x = extra.clone();
            let first = x.len() + 1;
            x.push(HOp {
                inv: 0,
                ret: INF - 1,
                required: true,
                kind: Kind::Is { db: d, state: found[d] },
                after: after.into_iter().chain(floor.iter().map(|f| first + f)).collect(),
                text: format!("[found at the start of epoch {}] {name:?} is {}", l.now, it.show(found[d])),
            });
            lin::check(&mut it.st, &with(&hd, x), init, &[d], BUDGET)
        };
        match probe(&floor, after) {
            Verdict::Yes => {}
            Verdict::Unknown => j.undecided += 1,
            // nothing of this life was on the disk for certain, and perhaps not even all of what it started with
            Verdict::No(_) if l.power && after.is_none() && why_floor != "graceful" && carry[d].as_ref().is_none_or(|c| c.contains(&found[d])) => {}
            Verdict::No(why) => {
                let (tag, text) = if probe(&[], after) == Verdict::Yes {
                    match why_floor {
                        "graceful" => ("graceful", "changes were lost by a graceful shutdown".to_string()),
                        "removed" => ("removed", "an acknowledged removal was undone".to_string()),
                        _ => ("window", "changes acknowledged long before the end were lost".to_string()),
                    }
                } else if after.is_some() && probe(&[], None) == Verdict::Yes {
                    (kind, "it is older than what had been saved".to_string())
                } else {
                    (kind, "it is not a version that the database ever had".to_string())
                };
                j.v(
                    tag,
                    l.now,
                    format!("database {name:?} after epoch {} ({}), found as {}: {text}: {why}", l.prev, outcome_text(r), it.show(found[d])),
                );
            }
        }
    }
}

///does this kind of misbehaviour contradict the property?
pub fn concerns(property: &str, tag: &str) -> bool {
    // a daemon or client that breaks down while only the plan's faults happen keeps no promise
    if matches!(tag, "crash" | "panic" | "hang" | "livelock" | "client-panic" | "wrong-answer" | "start") {
        return true;
    }
    let l: &[&str] = match property {
        "P01" => &["lin-read", "lin-status", "joint", "names", "phantom", "value-altered", "bad-body", "unanswered", "server-error"],
        "P02" => &["lin-read", "lin-status", "joint", "names", "phantom", "value-altered", "bad-body"],
        "P03" => &["lin-status", "lin-read", "wrong-status", "server-error", "unanswered", "bad-body"],
        "P04" => &["graceful", "value-altered", "bad-body", "removed", "torn", "saved-state", "lin-read", "phantom", "shutdown"],
        "P05" => &["value-altered", "bad-body", "lin-read", "lin-status", "graceful", "wrong-status", "server-error", "unanswered"],
        "P06" => &["graceful", "removed", "shutdown", "value-altered", "saved-state"],
        "P07" => &["kill", "removed", "torn", "saved-state", "graceful", "value-altered", "phantom", "lin-read", "window"],
        "P08" => &["power", "torn", "saved-state", "graceful", "value-altered", "phantom", "lin-read", "window"],
        "P09" => &["window", "kill", "power", "removed", "torn", "saved-state", "graceful"],
        "P10" => &[
            "kill", "power", "graceful", "window", "removed", "torn", "saved-state", "unanswered", "server-error", "slow", "lin-read", "lin-status",
            "shutdown",
        ],
        "P11" => &["removed", "graceful", "kill", "power", "lin-read", "lin-status", "saved-state", "torn", "phantom", "names", "window"],
        "P12" => &["escape", "wrong-status", "lin-status", "lin-read", "phantom", "graceful", "kill", "saved-state", "torn", "server-error", "window", "removed"],
        "P13" => &["lin-read", "lin-status", "joint", "value-altered", "graceful", "kill", "saved-state", "torn", "phantom", "removed", "names", "escape"],
        "P14" => &["memory", "wrong-status", "unanswered", "slow", "lin-read", "lin-status", "graceful", "kill", "server-error", "value-altered", "shutdown", "phantom"],
        "P15" => &["graceful", "kill", "lin-read", "lin-status", "saved-state", "torn", "window", "shutdown", "removed", "value-altered", "bad-body"],
        "P16" => &[
            "lin-read", "lin-status", "joint", "unanswered", "slow", "graceful", "kill", "removed", "saved-state", "torn", "names", "phantom", "window",
            "value-altered", "bad-body", "shutdown",
        ],
        "P17" => &["slow", "unanswered", "shutdown", "window", "server-error", "lin-read"],
        "P18" => &["shutdown"],
        "P19" | "P20" | "P25" => &[
            "lin-read", "lin-status", "joint", "unanswered", "slow", "bad-body", "value-altered", "names", "phantom", "wrong-status",
        ],
        "P21" => &["graceful", "kill", "torn", "lin-read", "removed", "window", "saved-state"],
        "P23" => &["start-changed", "graceful", "kill", "lin-read", "removed", "saved-state", "torn", "window"],
        "P24" => &["leak", "slow", "unanswered", "server-error"],
        "P22" => &["preset", "value-altered", "bad-body", "lin-read", "lin-status", "graceful", "wrong-status", "server-error", "unanswered"],
        _ => return true,
    };
    l.contains(&tag)
}
