//! Somebody at a terminal who uses the command line client: reads what it shows, thinks, and presses keys.
//! The client itself is the repository's own program, in this thread; its terminal and its files are ours.
use crate::client::{begin, end, op_text, panic_text};
use crate::epoch::ctx;
use crate::http;
use crate::json::J;
use crate::kern::*;
use crate::mval::MVal;
use crate::plan::*;
use crate::raw;
use crate::result::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Where {
    ///a new database instead of one from the list
    pub new: bool,
    pub db: String,
    ///what to answer when a new database of that name is there already
    pub over: bool,
    ///the next try if not
    pub other: String,
    ///try the reserved name before
    pub reserved: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Create { db: String, clear: bool },
    View { db: String },
    Add { at: Where, key: String, val: MVal, go: bool },
    Remove { db: String, key: String, go: bool },
    Update { db: String, key: String, val: MVal, go: bool },
    Export { db: String, types: bool },
    Import { at: Where, content: Content, broken: bool },
    Drop { db: String },
}

#[derive(Clone, Debug)]
enum A {
    Yes(bool),
    Pick(String),
    Type(String),
}
#[derive(Debug)]
enum Shown {
    Confirm(String),
    ///the prompt, the marked line, all lines
    Select(String, Option<usize>, Vec<String>),
    Input(String),
    Nothing,
}

const OUT_FD: i32 = 149;
const IN_FD: i32 = 150;
pub const NONE: usize = usize::MAX;

struct Session {
    client: usize,
    cmd: Cmd,
    think: u64,
    rng: Rng,
    inv: (u64, u64),
    ///what is still to be said about the value
    asks: VecDeque<(String, A)>,
    ///names to try for a new database
    tries: VecDeque<String>,
    last_try: Option<String>,
    names: Option<((u64, u64), (u64, u64))>,
    listed: bool,
    target: Option<String>,
    key: Option<String>,
    open: Option<usize>,
    asked_clear: bool,
    confirmed: bool,
    ///the list in which something was typed already
    typed_in: bool,
    prompts: u64,
    ///when the terminal goes away
    leaves: u64,
    ///when the daemon gets out of reach
    cut: u64,
    ///it is
    off: bool,
    ///the terminal went away
    hung: bool,
    wrong: Vec<String>,
    files: Vec<i32>,
}
static mut TID: usize = NONE;
static mut SHOWN: Vec<u8> = vec![];
static mut ERR: Vec<u8> = vec![];
static mut PRINTED: Vec<u8> = vec![];
///what came from the daemon since the last request to it began
static mut CAME: Vec<u8> = vec![];
static mut KEYS: VecDeque<u8> = VecDeque::new();
static mut S: Option<Session> = None;

pub fn tid() -> usize {
    unsafe { TID }
}
///the command line client cannot reach the daemon any more
#[allow(static_mut_refs)]
pub fn out_of_reach() -> bool {
    unsafe { TID != NONE && k().cur == TID && S.as_ref().is_some_and(|s| s.off) }
}
#[allow(static_mut_refs)]
pub fn came(b: &[u8]) {
    unsafe {
        if TID != NONE && k().cur == TID && CAME.len() < 1 << 16 {
            CAME.extend_from_slice(&b[..b.len().min(1 << 16)]);
        }
    }
}
#[allow(static_mut_refs)]
fn answered() -> bool {
    unsafe { CAME.windows(7).any(|w| w == b"HTTP/1.") }
}
#[allow(static_mut_refs)]
pub fn shown(fd: i32, b: &[u8]) {
    unsafe {
        if fd == 2 {
            SHOWN.extend_from_slice(b);
            ERR.extend_from_slice(b);
        } else {
            PRINTED.extend_from_slice(b);
        }
    }
}
#[allow(static_mut_refs)]
pub fn hung() -> bool {
    unsafe { TID != NONE && S.as_ref().is_some_and(|s| s.hung) }
}
#[allow(static_mut_refs)]
pub fn typed_ahead() -> bool {
    unsafe { !KEYS.is_empty() }
}
#[allow(static_mut_refs)]
pub fn take_keys(b: &mut [u8]) -> usize {
    let mut n = 0;
    unsafe {
        while n < b.len() {
            match KEYS.pop_front() {
                Some(x) => b[n] = x,
                None => break,
            }
            n += 1;
        }
    }
    n
}

///without the escape sequences; a line that was gone back to or cleared is dropped
fn plain(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else if c != '\r' {
            out.push(c);
        } else {
            let l = out.rfind('\n').map_or(0, |i| i + 1);
            out.truncate(l);
        }
    }
    out
}
fn parse(b: &[u8], hidden: bool) -> Shown {
    let t = plain(b);
    let lines: Vec<&str> = t.split('\n').collect();
    let prompt_of = |l: &str| l.strip_prefix("? ").unwrap_or(l).to_string();
    for (i, l) in lines.iter().enumerate().rev() {
        if let Some(p) = l.strip_suffix(" (y/n) ›") {
            return Shown::Confirm(prompt_of(p));
        }
        let head = if let Some(x) = l.strip_prefix("› ") {
            Some(("", x))
        } else if l.starts_with("? ") {
            l.split_once(" › ").map(|(a, b)| (a, b))
        } else {
            None
        };
        let Some((p, _)) = head else { continue };
        let p = prompt_of(p);
        if !hidden {
            return Shown::Input(p);
        }
        let mut items = vec![];
        let mut at = None;
        for x in &lines[i + 1..] {
            if let Some(x) = x.strip_prefix("❯ ") {
                at = Some(items.len());
                items.push(x.to_string());
            } else if let Some(x) = x.strip_prefix("  ") {
                items.push(x.to_string());
            }
        }
        return Shown::Select(p, at, items);
    }
    Shown::Nothing
}
fn has(needle: &str) -> bool {
    #[allow(static_mut_refs)]
    let t = unsafe { String::from_utf8_lossy(&PRINTED).into_owned() };
    t.contains(needle)
}

///the dialog about a value
fn asks(v: &MVal, r: &mut Rng, files: &mut Vec<Vec<u8>>, out: &mut VecDeque<(String, A)>) {
    let mut q = |p: &str, a: A| out.push_back((p.to_string(), a));
    let ty = |s: &str| A::Pick(s.to_string());
    let say = |s: String| A::Type(s);
    match v {
        MVal::Char(c) => {
            q("Type: ", ty("Character"));
            q("Character: ", say(char::from_u32(*c).unwrap().to_string()));
        }
        MVal::Str(s) => {
            q("Type: ", ty("String"));
            q("Text: ", say(s.clone()));
        }
        MVal::Bin(b) => {
            q("Type: ", ty("Binary"));
            let p = "Please enter the path to the file with the binary";
            if r.chance(30, 100) {
                q(p, say("/proc/self/fd/9999".into()));
            }
            q(p, say(format!("/proc/self/fd/{}", IN_FD + files.len() as i32)));
            files.push(b.0.clone());
        }
        MVal::Bool(b) => {
            q("Type: ", ty("Boolean"));
            q("", ty(if *b { "True" } else { "False" }));
        }
        MVal::Int(s) => {
            q("Type: ", ty("Integer"));
            if r.chance(10, 100) {
                q("Which number: ", say("12x".into()));
            }
            q("Which number: ", say(s.clone()));
        }
        MVal::Polar(a, b) => {
            q("Type: ", ty("Imaginary"));
            q("Form?", ty("Polar (re^(θi)) Form"));
            q("Modulus: ", say(format!("{:?}", f64::from_bits(*a))));
            q("Argument: ", say(format!("{:?}", f64::from_bits(*b))));
        }
        MVal::Cart(a, b) => {
            q("Type: ", ty("Imaginary"));
            q("Form?", ty("Cartesian (a+bi) Form"));
            q("Real Part: ", say(a.clone()));
            q("Imaginary Part: ", say(b.clone()));
        }
        MVal::Time(y, mo, d, h, mi, s, n) => {
            q("Type: ", ty("Timestamp"));
            q("Now?", A::Yes(false));
            if n % 1_000_000 != 0 || r.chance(40, 100) {
                q("Would you use the format?", A::Yes(true));
                let (s, n) = if *n >= 1_000_000_000 { (s + 1, n - 1_000_000_000) } else { (*s, *n) };
                let y = if (0..=9999).contains(y) { format!("{y:04}") } else { format!("{y:+05}") };
                q("%Y-%m-%dT%H:%M:%S%.f", say(format!("{y}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}.{n:09}")));
            } else {
                q("Would you use the format?", A::Yes(false));
                if r.chance(20, 100) {
                    q("Year: ", say("2023".into()));
                    q("Month: ", say("2".into()));
                    q("Date: ", say("29".into()));
                }
                q("Year: ", say(y.to_string()));
                q("Month: ", say(mo.to_string()));
                q("Date: ", say(d.to_string()));
                if r.chance(20, 100) {
                    q("Hour: ", say("24".into()));
                    q("Minute: ", say("0".into()));
                    q("Seconds: ", say("0".into()));
                    q("Milliseconds: ", say("0".into()));
                }
                q("Hour: ", say(h.to_string()));
                q("Minute: ", say(mi.to_string()));
                q("Seconds: ", say(s.to_string()));
                q("Milliseconds: ", say((n / 1_000_000).to_string()));
            }
        }
        MVal::Json(s) => {
            q("Type: ", ty("JSON"));
            if r.chance(20, 100) {
                q("JSON: ", say("{\"a\": ".into()));
            }
            q("JSON: ", say(s.clone()));
        }
        MVal::Null => q("Type: ", ty("Null")),
        MVal::F64(b) => {
            q("Type: ", ty("DoubleFloat"));
            q("Value:", say(format!("{:?}", f64::from_bits(*b))));
        }
        MVal::F32(b) => {
            q("Type: ", ty("SingleFloat"));
            q("Value:", say(format!("{:?}", f32::from_bits(*b))));
        }
        MVal::Arr(v) => {
            q("Type: ", ty("Array"));
            let known = v.is_empty() || r.chance(50, 100);
            q("Do you know how long the array is?", A::Yes(known));
            if known {
                q("How long?", say(v.len().to_string()));
            }
            for (i, x) in v.iter().enumerate() {
                asks(x, r, files, out);
                if !known {
                    out.push_back(("Is that everything?".into(), A::Yes(i + 1 == v.len())));
                }
            }
        }
        MVal::Map(m) => {
            q("Type: ", ty("Map"));
            let known = r.chance(50, 100);
            q("Do you know how long the store is?", A::Yes(known));
            if known {
                q("Length: ", say(m.len().to_string()));
            }
            for (kx, x) in m {
                if !known {
                    out.push_back(("Is that all the keys & values?".into(), A::Yes(false)));
                }
                out.push_back(("Key: ".into(), A::Type(kx.clone())));
                asks(x, r, files, out);
            }
            if !known {
                out.push_back(("Is that all the keys & values?".into(), A::Yes(true)));
            }
        }
        MVal::Tz(s) => {
            q("Type: ", ty("Timezone"));
            q("Timezone: ", ty(s));
        }
        MVal::V4(a) => {
            q("Type: ", ty("Ipv4Addr"));
            q("Ipv4 Address: ", say(std::net::Ipv4Addr::from(*a).to_string()));
        }
        MVal::V6(a) => {
            q("Type: ", ty("Ipv6Addr"));
            q("Ipv6 Address: ", say(std::net::Ipv6Addr::from(*a).to_string()));
        }
    }
}

fn stamp() -> (u64, u64) {
    (k().next_seq(), k().now)
}
///something that was learnt about a time in the past
fn learnt(client: usize, op: Op, inv: (u64, u64), ret: (u64, u64), out: Out) {
    k().tr(|| format!("  client {client} learnt {} -> {}", op_text(&op), crate::client::out_text(&out)));
    ctx().recs.push(Rec { client, op, inv: inv.0, inv_t: inv.1, ret: Some(ret), out, not_sent: false, maybe_twice: false });
}

impl Session {
    fn bad(&mut self, s: String) {
        if self.wrong.len() < 3 {
            self.wrong.push(s);
        }
    }
    #[allow(static_mut_refs)]
    fn write(&mut self, op: Op) {
        unsafe { CAME.clear() };
        self.open = Some(begin(self.client, &op));
    }
    fn never(&mut self) {
        if let Some(i) = self.open.take() {
            end(i, Out::Lost("aborted".into()), true, false);
        }
    }
    fn close(&mut self, out: Out) {
        if let Some(i) = self.open.take() {
            if !matches!(out, Out::Lost(_)) && !answered() {
                self.bad(format!("knows the result of {} without an answer", op_text(&ctx().recs[i].op)));
            }
            let twice = matches!(ctx().recs[i].op, Op::AddKv { .. } | Op::AddContent { .. });
            end(i, out, false, twice);
        }
    }
    fn exists(&mut self, db: &str, yes: bool) {
        if let Some((a, b)) = self.names {
            let s = if yes { 200 } else { 410 };
            learnt(self.client, Op::GetDb { db: db.to_string() }, a, b, Out::OneOf(vec![(s, Body::None)]));
        }
    }
    fn at(&self) -> Option<&Where> {
        match &self.cmd {
            Cmd::Add { at, .. } | Cmd::Import { at, .. } => Some(at),
            _ => None,
        }
    }
    ///the only database there is, when nobody asked which one
    fn the_only(&mut self) {
        if self.target.is_some() {
            return;
        }
        if let Some(t) = self.last_try.take() {
            // a new name which was taken as it is
            self.exists(&t.clone(), false);
            self.target = Some(t);
            return;
        }
        let all = crate::mouse::databases(&ctx().plan);
        if all.len() == 1 {
            if let Some((a, b)) = self.names {
                learnt(self.client, Op::Names, a, b, Out::Resp(200, Body::Names(all.clone())));
            }
            self.target = Some(all[0].clone());
        } else {
            self.bad("went on without asking which database is meant".into());
            self.target = Some(String::new());
        }
    }
    ///what to do with the database once it is known which
    fn chosen(&mut self) {
        let db = self.target.clone().unwrap_or_default();
        match &self.cmd {
            Cmd::View { .. } | Cmd::Remove { .. } | Cmd::Update { .. } | Cmd::Export { .. } => self.write(Op::GetDb { db }),
            Cmd::Drop { .. } => self.write(Op::RmDb { db }),
            Cmd::Import { content, .. } => {
                let content = content.clone();
                let over = !self.at().is_some_and(|a| a.new) || self.confirmed;
                self.write(Op::AddContent { db, over, content });
            }
            _ => {}
        }
    }
    fn add(&mut self, create: bool) {
        let (Some(db), Cmd::Add { key, val, .. } | Cmd::Update { key, val, .. }) = (self.target.clone(), &self.cmd) else { return };
        let key = self.key.clone().unwrap_or_else(|| key.clone());
        let val = val.clone();
        self.write(Op::AddKv { db, key, val, create, over: true });
    }
    fn pick(&mut self, want: &str, at: Option<usize>, items: &[String]) -> Vec<u8> {
        if at.is_some_and(|i| items[i] == want) {
            self.typed_in = false;
            return b"\r".to_vec();
        }
        if !self.typed_in && at.is_none() && self.rng.chance(if items.len() > 20 { 95 } else { 40 }, 100) {
            self.typed_in = true;
            return want.as_bytes().to_vec();
        }
        if self.typed_in && !items.iter().any(|x| x == want) {
            // the matcher does not find it
            self.typed_in = false;
            return vec![0x7f; want.chars().count()];
        }
        let (a, b) = (at, items.iter().position(|x| x == want));
        match (a, b) {
            (_, None) => b"\x1b[B".to_vec(),
            (None, Some(b)) if b > items.len() / 2 => b"\x1b[A".to_vec(),
            (Some(a), Some(b)) if b < a => b"\x1b[A".to_vec(),
            _ => b"\x1b[B".to_vec(),
        }
    }
    fn react(&mut self, p: Shown) -> Vec<u8> {
        let yes = |b: bool| if b { b"y".to_vec() } else { b"n".to_vec() };
        let line = |s: &str| {
            let mut v = s.as_bytes().to_vec();
            v.push(b'\r');
            v
        };
        match p {
            Shown::Confirm(t) => match t.as_str() {
                "A database with that name already exists. Clear that database?" => {
                    let Cmd::Create { db, clear } = self.cmd.clone() else {
                        self.bad(format!("asks {t:?}"));
                        return yes(false);
                    };
                    self.never();
                    self.names = Some((self.inv, stamp()));
                    self.exists(&db, true);
                    self.asked_clear = true;
                    if clear {
                        self.write(Op::AddDb { db, over: true });
                    }
                    yes(clear)
                }
                "New Database?" => {
                    self.names = Some((self.inv, stamp()));
                    let Some(at) = self.at().cloned() else {
                        self.bad(format!("asks {t:?}"));
                        return yes(false);
                    };
                    if !at.new && matches!(self.cmd, Cmd::Import { .. }) {
                        // it may turn out that there is none
                        let all = databases(&ctx().plan);
                        if all.len() == 1 {
                            self.target = Some(all[0].clone());
                            self.chosen();
                        }
                    }
                    yes(at.new)
                }
                "This database already exists. Overwrite?" => {
                    self.never();
                    let Some(at) = self.at().cloned() else {
                        self.bad(format!("asks {t:?}"));
                        return yes(false);
                    };
                    let n = self.last_try.take().unwrap_or_default();
                    self.target = None;
                    self.exists(&n, true);
                    let over = at.over || self.tries.is_empty();
                    if over {
                        self.confirmed = true;
                        self.target = Some(n);
                        self.chosen();
                    }
                    yes(over)
                }
                "Confirm Addition?" => {
                    let Cmd::Add { key, go, .. } = self.cmd.clone() else {
                        self.bad(format!("asks {t:?}"));
                        return yes(false);
                    };
                    if !self.asks.is_empty() {
                        self.bad(format!("asks {t:?} before {:?}", self.asks[0].0));
                    }
                    if !has(&format!("Received Key: {key}\n")) {
                        self.bad(format!("does not say that it received the key {key:?}"));
                    }
                    self.the_only();
                    if go {
                        self.add(true);
                    }
                    yes(go)
                }
                "Confirm Removal?" => {
                    let Cmd::Remove { go, .. } = self.cmd.clone() else {
                        self.bad(format!("asks {t:?}"));
                        return yes(false);
                    };
                    if go {
                        let (Some(db), Some(key)) = (self.target.clone(), self.key.clone()) else {
                            self.bad("asks about a removal without having asked for the key".into());
                            return yes(false);
                        };
                        self.write(Op::RmKv { db, key });
                    }
                    yes(go)
                }
                "Confirm Update?" => {
                    let Cmd::Update { go, .. } = self.cmd.clone() else {
                        self.bad(format!("asks {t:?}"));
                        return yes(false);
                    };
                    if self.key.is_none() || !self.asks.is_empty() {
                        self.bad("asks about an update before everything was said".into());
                        return yes(false);
                    }
                    if go {
                        self.add(true);
                    }
                    yes(go)
                }
                _ => match self.answer(&t) {
                    Some(A::Yes(b)) => yes(b),
                    _ => yes(false),
                },
            },
            Shown::Select(t, at, items) => match t.as_str() {
                "Which database?" => {
                    if !self.listed {
                        self.listed = true;
                        self.never();
                        let mut v = items.clone();
                        v.sort();
                        let (a, b) = self.names.unwrap_or((self.inv, stamp()));
                        learnt(self.client, Op::Names, a, b, Out::Resp(200, Body::Names(v)));
                        let want = match &self.cmd {
                            Cmd::View { db } | Cmd::Remove { db, .. } | Cmd::Update { db, .. } | Cmd::Export { db, .. } | Cmd::Drop { db } => db.clone(),
                            Cmd::Add { at, .. } | Cmd::Import { at, .. } => at.db.clone(),
                            Cmd::Create { .. } => String::new(),
                        };
                        let drop = matches!(self.cmd, Cmd::Drop { .. });
                        let ok = |x: &String| !(drop && is_pinned(x));
                        self.target = if items.contains(&want) {
                            Some(want)
                        } else {
                            items.iter().find(|x| ok(x)).cloned()
                        };
                        if self.target.is_none() {
                            // nothing that may be dropped
                            self.hung = true;
                            return vec![];
                        }
                    }
                    let want = self.target.clone().unwrap_or_default();
                    let keys = self.pick(&want, at, &items);
                    if keys == b"\r" {
                        self.chosen();
                    }
                    keys
                }
                "Select key to be removed:" | "Select key to be updated:" => {
                    if self.key.is_none() {
                        let want = match &self.cmd {
                            Cmd::Remove { key, .. } if t.contains("removed") => key.clone(),
                            Cmd::Update { key, .. } if t.contains("updated") => key.clone(),
                            _ => {
                                self.bad(format!("asks {t:?}"));
                                String::new()
                            }
                        };
                        self.shows_keys(&items);
                        self.key = Some(if items.contains(&want) { want } else { items.iter().min().cloned().unwrap_or_default() });
                    }
                    let want = self.key.clone().unwrap_or_default();
                    self.pick(&want, at, &items)
                }
                _ => {
                    let want = match self.asks.front() {
                        Some((p, A::Pick(x))) if *p == t => x.clone(),
                        o => {
                            let o = format!("asks {t:?}, not {o:?}");
                            self.bad(o);
                            items.first().cloned().unwrap_or_default()
                        }
                    };
                    if at.is_none() && !self.typed_in && !items.contains(&want) {
                        self.bad(format!("{want:?} cannot be chosen for {t:?}"));
                        self.asks.pop_front();
                        return b"\x1b[B\r".to_vec();
                    }
                    let keys = self.pick(&want, at, &items);
                    if keys == b"\r" {
                        self.asks.pop_front();
                    }
                    keys
                }
            },
            Shown::Input(t) => match t.as_str() {
                "Database Name: " => {
                    if self.at().is_none() {
                        self.bad(format!("asks {t:?}"));
                    }
                    if let Some(n) = self.last_try.take() {
                        self.never();
                        self.target = None;
                        self.bad(format!("asks for a name again after {n:?}"));
                    }
                    let n = self.tries.pop_front().unwrap_or_else(|| "spare".into());
                    if n != "meta" {
                        self.last_try = Some(n.clone());
                        if matches!(self.cmd, Cmd::Import { .. }) {
                            self.target = Some(n.clone());
                            self.chosen();
                        }
                    }
                    line(&n)
                }
                _ => {
                    if t == "Key: " {
                        self.the_only();
                    }
                    match self.answer(&t) {
                        Some(A::Type(s)) => line(&s),
                        _ => line("1"),
                    }
                }
            },
            Shown::Nothing => {
                self.bad("waits for a key without asking anything".into());
                line("y")
            }
        }
    }
    fn answer(&mut self, t: &str) -> Option<A> {
        match self.asks.front() {
            Some((p, _)) if p == t => self.asks.pop_front().map(|x| x.1),
            o => {
                let o = format!("asks {t:?}, not {o:?}");
                self.bad(o);
                None
            }
        }
    }
    ///the keys of the chosen database
    fn shows_keys(&mut self, items: &[String]) {
        if self.open.is_none() {
            // nobody asked which database
            self.names = Some((self.inv, stamp()));
            self.the_only();
            let db = self.target.clone().unwrap_or_default();
            if !db.is_empty() {
                let mut v = items.to_vec();
                v.sort();
                learnt(self.client, Op::GetDb { db }, self.inv, stamp(), Out::Resp(200, Body::Keys(v)));
            }
            return;
        }
        let mut v = items.to_vec();
        v.sort();
        self.close(Out::Resp(200, Body::Keys(v)));
    }
}

pub const PINNED: [&str; 2] = ["pinned", "rock"];
pub fn is_pinned(n: &str) -> bool {
    PINNED.contains(&n)
}
///all the databases of a plan
pub fn databases(p: &Plan) -> Vec<String> {
    let mut v = std::collections::BTreeSet::new();
    if let Some(x) = &p.preset {
        v.extend(x.content.keys().cloned());
    }
    for s in p.epochs.iter().flat_map(|e| &e.clients).flat_map(|c| &c.steps) {
        match &s.op {
            Op::Mouse { cmd, .. } => match cmd {
                Cmd::Create { db, .. }
                | Cmd::View { db }
                | Cmd::Remove { db, .. }
                | Cmd::Update { db, .. }
                | Cmd::Export { db, .. }
                | Cmd::Drop { db } => {
                    v.insert(db.clone());
                }
                Cmd::Add { at, .. } | Cmd::Import { at, .. } => {
                    v.insert(at.db.clone());
                    if at.new {
                        v.insert(at.other.clone());
                    }
                }
            },
            o => {
                if let Some(d) = crate::oracle::db_of(o) {
                    v.insert(d.to_string());
                }
            }
        }
    }
    v.into_iter().collect()
}

///the client waits for a key; false: the terminal goes away
#[allow(static_mut_refs)]
pub fn think() -> bool {
    unsafe {
        let b = std::mem::take(&mut SHOWN);
        let hidden = {
            let t = String::from_utf8_lossy(&ERR);
            match (t.rfind("\x1b[?25l"), t.rfind("\x1b[?25h")) {
                (Some(a), Some(b)) => a > b,
                (Some(_), None) => true,
                _ => false,
            }
        };
        let p = parse(&b, hidden);
        k().tr(|| format!("  terminal: {}", format!("{p:?}").chars().take(200).collect::<String>()));
        let Some(s) = &mut S else { return false };
        s.prompts += 1;
        if s.prompts > 4000 {
            s.bad("asks and asks".into());
        }
        let quick = matches!(&p, Shown::Select(_, Some(_), _)) || s.think == 0;
        let dead = k().dead || ctx().stop || s.prompts > 4000;
        if !dead && !quick {
            let t = s.rng.below(s.think) + 1;
            http::nap(t);
        }
        let Some(s) = &mut S else { return false };
        if s.leaves > 0 && s.prompts >= s.leaves {
            // whatever was to be done has not been asked for
            s.hung = true;
            s.never();
        }
        if s.cut > 0 && s.prompts >= s.cut && !s.off {
            s.off = true;
            k().tr(|| "  out of reach".to_string());
        }
        if s.prompts > 4020 || s.hung {
            return false;
        }
        let keys = s.react(p);
        if s.hung {
            return false;
        }
        k().tr(|| format!("  keys: {:?}", String::from_utf8_lossy(&keys).chars().take(120).collect::<String>()));
        KEYS.extend(keys);
        true
    }
}

fn memfd(fd: i32, b: &[u8]) {
    unsafe {
        let m = raw::sc(libc::SYS_memfd_create, c"f".as_ptr() as usize, 0, 0, 0, 0, 0);
        raw::sc(libc::SYS_dup3, m as usize, fd as usize, 0, 0, 0, 0);
        raw::sc(libc::SYS_close, m as usize, 0, 0, 0, 0, 0);
        let mut o = 0;
        while o < b.len() {
            let n = raw::sc(libc::SYS_pwrite64, fd as usize, b.as_ptr() as usize + o, b.len() - o, o, 0, 0);
            if n <= 0 {
                k().unsupported.push("cannot write a scratch file".into());
                return;
            }
            o += n as usize;
        }
    }
}
fn contents(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut b = [0u8; 4096];
    loop {
        let n = unsafe { raw::sc(libc::SYS_pread64, fd as usize, b.as_mut_ptr() as usize, b.len(), v.len(), 0, 0) };
        if n <= 0 {
            return v;
        }
        v.extend_from_slice(&b[..n as usize]);
    }
}
fn unfile(fd: i32) {
    unsafe {
        raw::sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
    }
}

///the rows of a table on the screen: the key and, when it is on one line, the value
fn table(t: &str) -> Option<Vec<(String, Option<String>)>> {
    let mut rows = vec![];
    let mut cur: Vec<(String, String)> = vec![];
    let mut header = true;
    let mut open = false;
    let mut flush = |cur: &mut Vec<(String, String)>, header: &mut bool| {
        if cur.is_empty() {
            return;
        }
        let c = std::mem::take(cur);
        if std::mem::take(header) {
            return;
        }
        let key: String = c.iter().map(|x| x.0.as_str()).collect();
        let v = if c.len() == 1 { Some(c[0].1.clone()) } else { None };
        rows.push((key, v));
    };
    for l in t.lines() {
        if l.starts_with('╭') {
            open = true;
        } else if l.starts_with('╞') || l.starts_with('├') {
            flush(&mut cur, &mut header);
        } else if l.starts_with('╰') {
            flush(&mut cur, &mut header);
            return Some(rows);
        } else if open && l.starts_with('│') {
            let x = l.trim_start_matches('│');
            let (a, b) = x.split_once('┆')?;
            let b = b.strip_suffix('│')?;
            cur.push((a.trim().to_string(), b.trim().to_string()));
        }
    }
    None
}

fn status_in(t: &str) -> Option<u16> {
    for p in ["HttpErrorCode(", "ServerNotHealthy("] {
        if let Some(i) = t.find(p) {
            return t[i + p.len()..].split(')').next()?.trim().parse().ok();
        }
    }
    None
}

#[allow(static_mut_refs)]
fn session(client: usize, cmd: &Cmd, think: u64, leaves: u64, cut: u64) {
    let mut rng = Rng::new(k().rng.next());
    let op = Op::Mouse { cmd: cmd.clone(), think, leaves, cut };
    let mut files: Vec<Vec<u8>> = vec![];
    let mut a = VecDeque::new();
    let mut tries = VecDeque::new();
    let mut out_file = false;
    let mut args: Vec<String> = vec!["mouse".into(), "127.0.0.1".into()];
    let mut arg = |s: &str| args.push(s.to_string());
    match cmd {
        Cmd::Create { db, .. } => {
            arg("create-new");
            if db.starts_with('-') {
                arg("--");
            }
            arg(db);
        }
        Cmd::View { .. } => arg("view-all"),
        Cmd::Add { key, val, .. } => {
            arg("add-entry");
            a.push_back(("Key: ".to_string(), A::Type(key.clone())));
            asks(val, &mut rng, &mut files, &mut a);
        }
        Cmd::Remove { .. } => arg("remove-entry"),
        Cmd::Update { val, .. } => {
            arg("update-entry");
            asks(val, &mut rng, &mut files, &mut a);
        }
        Cmd::Export { types, .. } => {
            arg("export-to-json");
            arg(&format!("/proc/self/fd/{OUT_FD}"));
            if *types {
                arg(if rng.chance(50, 100) { "--add-souris-types" } else { "-a" });
            }
            out_file = true;
        }
        Cmd::Import { content, broken, .. } => {
            arg("import-from-json");
            arg(&format!("/proc/self/fd/{IN_FD}"));
            let mut t = J::of_content(content, &mut rng).text(&mut rng);
            if *broken {
                let n = t.trim_end().len();
                if rng.coin() && t[..n].ends_with(['}', ']', '"']) {
                    t.truncate(n - 1);
                } else {
                    t.push(']');
                }
            }
            files.push(t.into_bytes());
        }
        Cmd::Drop { .. } => arg("remove-database"),
    }
    if let Cmd::Add { at, .. } | Cmd::Import { at, .. } = cmd {
        if at.reserved {
            tries.push_back("meta".to_string());
        }
        tries.push_back(at.db.clone());
        if !at.over {
            tries.push_back(at.other.clone());
        }
    }
    let mut fds = vec![];
    for (i, b) in files.iter().enumerate() {
        memfd(IN_FD + i as i32, b);
        fds.push(IN_FD + i as i32);
    }
    if out_file {
        let junk = if rng.chance(50, 100) { vec![b'}'; rng.below(3000) as usize] } else { vec![] };
        memfd(OUT_FD, &junk);
        fds.push(OUT_FD);
    }
    k().tr(|| format!("client {client}: {}", args.join(" ")));
    let inv = stamp();
    let single = databases(&ctx().plan).len() == 1;
    unsafe {
        SHOWN.clear();
        ERR.clear();
        PRINTED.clear();
        KEYS.clear();
        S = Some(Session {
            client,
            cmd: cmd.clone(),
            think,
            rng,
            inv,
            asks: a,
            tries,
            last_try: None,
            names: None,
            listed: false,
            target: None,
            key: None,
            open: None,
            asked_clear: false,
            confirmed: false,
            typed_in: false,
            prompts: 0,
            leaves,
            cut,
            off: false,
            hung: false,
            wrong: vec![],
            files: fds,
        });
        let s = S.as_mut().unwrap();
        match cmd {
            Cmd::Create { db, .. } => s.write(Op::AddDb { db: db.clone(), over: false }),
            Cmd::Drop { db } if single => s.write(Op::RmDb { db: db.clone() }),
            _ => {}
        }
        TID = k().cur;
    }
    let r = catch_unwind(AssertUnwindSafe(|| mouse::sim_main(args)));
    unsafe {
        TID = NONE;
    }
    let mut s = unsafe { S.take().unwrap() };
    let printed = unsafe { String::from_utf8_lossy(&std::mem::take(&mut PRINTED)).into_owned() };
    let errors = unsafe { plain(&std::mem::take(&mut ERR)) };
    k().tr(|| format!("  prints {printed}"));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let t = panic_text(&*e);
            ctx().client_panics.push(format!("mouse: {t} ({cmd:?})").chars().take(400).collect());
            Err(format!("panic {t}"))
        }
    };
    let file = if out_file { contents(OUT_FD) } else { vec![] };
    for f in &s.files {
        unfile(*f);
    }
    let now = stamp();
    match &r {
        Err(e) => failed(&mut s, e, now),
        // whatever it did, it was not asked to
        Ok(()) if s.hung => {}
        Ok(()) => done(&mut s, &printed, &errors, &file, single, now),
    }
    // what is left open has an unknown result
    let why = if s.wrong.is_empty() { "unfinished" } else { "aborted" };
    s.close(Out::Lost(why.into()));
    for w in std::mem::take(&mut s.wrong) {
        learnt(client, op.clone(), inv, now, Out::Wrong(format!("the command line client {w}")));
    }
}

fn failed(s: &mut Session, e: &str, now: (u64, u64)) {
    k().tr(|| format!("  fails: {e}"));
    if e.contains("NoDatabasesFound") {
        s.never();
        let unasked = matches!(s.cmd, Cmd::Import { .. }) && databases(&ctx().plan).len() == 1;
        if matches!(s.cmd, Cmd::Create { .. }) || s.target.is_some() && !unasked {
            s.bad(format!("fails with {e:?} though a name is known"));
        }
        let (a, b) = s.names.unwrap_or((s.inv, now));
        learnt(s.client, Op::Names, a, b, Out::Resp(200, Body::Names(vec![])));
        return;
    }
    if !e.starts_with("Client(") {
        if let (Cmd::Import { broken: true, .. }, true) = (&s.cmd, s.prompts == 0) {
            return;
        }
        if !(k().dead || ctx().stop || s.hung) {
            s.bad(format!("fails with {e}"));
        }
        return;
    }
    let out = match status_in(e) {
        None if s.off => Out::Lost("aborted".into()),
        Some(c) => Out::Resp(c, Body::None),
        None => Out::Lost(format!("client: {e}").chars().take(300).collect()),
    };
    if s.open.is_some() {
        s.close(out);
    } else if s.names.is_some() || s.listed {
        let single = databases(&ctx().plan);
        if single.len() == 1 && !matches!(out, Out::Lost(_)) {
            learnt(s.client, Op::GetDb { db: single[0].clone() }, s.inv, now, out);
        } else if !s.off {
            s.bad(format!("fails with {e} without having asked for anything"));
        }
    } else {
        // the list of names, or in the only database
        let all = databases(&ctx().plan);
        match out {
            Out::Resp(410, _) if all.len() == 1 && !matches!(s.cmd, Cmd::Add { .. } | Cmd::Import { .. }) => {
                learnt(s.client, Op::GetDb { db: all[0].clone() }, s.inv, now, out);
            }
            out => learnt(s.client, Op::Names, s.inv, now, out),
        }
    }
}

fn done(s: &mut Session, printed: &str, errors: &str, file: &[u8], single: bool, now: (u64, u64)) {
    let said = |t: &str| printed.lines().any(|l| l == t);
    if !s.asks.is_empty() && !matches!(s.cmd, Cmd::Update { .. }) {
        let t = s.asks[0].0.clone();
        s.bad(format!("ends without having asked {t:?}"));
    }
    // nobody asked which database
    let only = |s: &mut Session| {
        if s.target.is_none() {
            if s.names.is_none() {
                s.names = Some((s.inv, now));
            }
            s.the_only();
        }
        s.target.clone().unwrap_or_default()
    };
    match s.cmd.clone() {
        Cmd::Create { db, clear } => {
            if s.asked_clear && !clear {
                if !said("Cancelled clearing database") {
                    s.bad("does not say that nothing was cleared".into());
                }
                return;
            }
            if !s.asked_clear {
                s.names = Some((s.inv, now));
                s.exists(&db, false);
            }
            if said("Database successfully created") {
                s.close(Out::Resp(201, Body::None));
            } else if said("Successfully cleared database") {
                if s.asked_clear {
                    s.close(Out::Resp(200, Body::None));
                } else {
                    s.bad(format!("cleared {db:?} without having asked"));
                    s.close(Out::Lost("aborted".into()));
                }
            } else if !s.asked_clear && said("A database with that name was created in the meantime") {
                s.close(Out::Resp(200, Body::None));
            } else {
                s.bad(format!("does not say what happened: {printed:?}"));
            }
        }
        Cmd::View { .. } => {
            let b = match table(printed) {
                Some(rows) => Body::Table(rows),
                None => {
                    s.bad(format!("shows no table: {printed:?}"));
                    return;
                }
            };
            let db = only(s);
            if s.open.is_some() {
                s.close(Out::Resp(200, b));
            } else if single {
                learnt(s.client, Op::GetDb { db }, s.inv, now, Out::Resp(200, b));
            }
        }
        Cmd::Export { types, .. } => {
            let db = only(s);
            if !said(&format!("Received Database {db:?}, converting to JSON")) {
                s.bad(format!("exports something else than {db:?}: {printed:?}"));
            }
            let json = if errors.contains("Unable to convert to JSON") {
                None
            } else {
                match String::from_utf8(file.to_vec()).ok().filter(|t| J::parse(t).is_some()) {
                    Some(t) => Some(t),
                    None => {
                        let t: String = String::from_utf8_lossy(file).chars().take(200).collect();
                        s.bad(format!("wrote a file which is not JSON: {t:?}"));
                        return;
                    }
                }
            };
            let b = Body::Json { types, text: json };
            if s.open.is_some() {
                s.close(Out::Resp(200, b));
            } else if single {
                learnt(s.client, Op::GetDb { db }, s.inv, now, Out::Resp(200, b));
            }
        }
        Cmd::Remove { go, .. } => {
            if said("Database already empty.") {
                s.shows_keys(&[]);
            } else if s.key.is_none() {
                s.bad("ends without having asked for the key".into());
            } else if go {
                if said("Successfully removed Key") {
                    s.close(Out::OneOf(vec![(200, Body::None), (410, Body::None), (400, Body::None)]));
                } else {
                    s.bad("does not say that the key was removed".into());
                }
            } else if !said("Cancelled removing database.") {
                s.bad("does not say that nothing was removed".into());
            }
        }
        Cmd::Update { go, .. } => {
            if said("Database is empty.") {
                s.shows_keys(&[]);
                return;
            }
            result(s, printed, go, "Cancelled updating key-value pair.");
        }
        Cmd::Add { go, .. } => result(s, printed, go, "Cancelled addition"),
        Cmd::Import { broken, .. } => {
            if broken {
                s.bad("accepts a file which is not JSON".into());
            }
            if let Some(n) = s.last_try.take() {
                s.exists(&n, false);
            } else if single && !s.at().is_some_and(|a| a.new) {
                let db = s.target.clone().unwrap_or_default();
                s.exists(&db, true);
            }
            only(s);
            if said("Created new database with JSON.") {
                s.close(Out::Resp(201, Body::None));
            } else if said("Overwrote existing database with JSON.") {
                let over = s.open.is_some_and(|i| matches!(ctx().recs[i].op, Op::AddContent { over: true, .. }));
                if !over {
                    s.bad("overwrote a database without having asked".into());
                    s.close(Out::Lost("aborted".into()));
                } else {
                    s.close(Out::Resp(200, Body::None));
                }
            } else if said("Added the JSON to a database that was created in the meantime.") {
                s.close(Out::Resp(200, Body::None));
            } else {
                s.bad(format!("does not say what happened: {printed:?}"));
            }
        }
        Cmd::Drop { .. } => {
            let db = only(s);
            if !said("Successfully removed database") {
                s.bad(format!("does not say that {db:?} was removed"));
            } else {
                s.close(Out::Resp(200, Body::None));
            }
        }
    }
}
fn result(s: &mut Session, printed: &str, go: bool, cancelled: &str) {
    if !go {
        if !printed.lines().any(|l| l == cancelled) {
            s.bad("does not say that nothing was done".into());
        }
        return;
    }
    let all = [
        ("Added new key to existing database", "InsertedKeyIntoExistingDB"),
        ("Overwrote existing key in existing database", "OverwroteKeyInExistingDB"),
        ("Found existing key in existing database, didn't overwrite", "FoundExistingKey"),
        ("Added new key to new database", "InsertedKeyIntoNewDB"),
        ("Unable to find database", "UnableToFindDB"),
    ];
    match printed.lines().rev().find_map(|l| all.iter().find(|x| x.0 == l)) {
        Some(x) if s.open.is_some() => s.close(Out::Resp(200, Body::Creation(x.1.into()))),
        Some(_) => s.bad("did something without having asked".into()),
        None => s.bad(format!("does not say what happened: {printed:?}")),
    }
}

pub fn run(id: usize, c: &Client) {
    for st in &c.steps {
        http::nap(st.delay);
        if k().dead || ctx().stop {
            return;
        }
        match &st.op {
            Op::Mouse { cmd, think, leaves, cut } => session(id, cmd, *think, *leaves, *cut),
            Op::Sleep { ns } => http::nap(*ns),
            Op::Meet { before } => http::meet(*before),
            _ => {}
        }
    }
}
