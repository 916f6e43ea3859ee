//! Linearizability against a small executable model of the daemon's databases
//! (Wing & Gong's search with memoisation, Lowe's refinements).
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub const INF: u64 = u64::MAX;

///contents of a database, interned: None is absent
pub type Db = Option<Vec<(u32, u32)>>;

#[derive(Default)]
pub struct States {
    ids: HashMap<Db, u32>,
    all: Vec<Rc<Db>>,
}
impl States {
    pub fn id(&mut self, d: Db) -> u32 {
        if let Some(&i) = self.ids.get(&d) {
            return i;
        }
        let i = self.all.len() as u32;
        self.all.push(Rc::new(d.clone()));
        self.ids.insert(d, i);
        i
    }
    pub fn get(&self, i: u32) -> Rc<Db> {
        self.all[i as usize].clone()
    }
}

#[derive(Clone, Debug)]
pub enum M {
    AddDb { over: bool, bad: bool },
    AddContent { over: bool, bad: bool, content: Vec<(u32, u32)> },
    RmDb,
    ClearDb,
    AddKv { k: u32, v: u32, create: bool, over: bool, bad: bool },
    RmKv { k: u32 },
    GetVal { k: u32 },
    GetDb,
}
impl M {
    pub fn is_read(&self) -> bool {
        matches!(self, M::GetVal { .. } | M::GetDb)
    }
}

///what the model answers
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum A {
    None,
    Val(u32),
    ///a state
    Store(u32),
    Created(u8),
}
pub const CREATION: [&str; 5] =
    ["InsertedKeyIntoExistingDB", "OverwroteKeyInExistingDB", "FoundExistingKey", "InsertedKeyIntoNewDB", "UnableToFindDB"];

#[derive(Clone, Debug)]
pub enum Seen {
    ///nothing is known
    Any,
    Resp(u16, A),
    Statuses(Vec<u16>),
    ///it is there, and its content is such
    Such(Part),
}
///something that is known about a content
#[derive(Clone)]
pub struct Part(pub Rc<dyn Fn(&[(u32, u32)]) -> bool>);
impl std::fmt::Debug for Part {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("…")
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Op { db: usize, m: M, seen: Seen },
    ///whether each database was listed
    Names(Vec<bool>),
    ///the whole content was this (a recovered or a saved version)
    Is { db: usize, state: u32 },
}
#[derive(Clone, Debug)]
pub struct HOp {
    pub inv: u64,
    pub ret: u64,
    ///has to be in the order (others may have had no effect)
    pub required: bool,
    pub kind: Kind,
    ///comes after these
    pub after: Vec<usize>,
    pub text: String,
}

#[derive(Debug, PartialEq)]
pub enum Verdict {
    Yes,
    ///the longest explained part, and what could not be explained after it
    No(String),
    Unknown,
}

fn model(st: &mut States, s: u32, m: &M) -> (u32, u16, A) {
    let cur = st.get(s);
    let put = |v: &Vec<(u32, u32)>, k: u32, x: u32| {
        let mut v = v.clone();
        match v.binary_search_by_key(&k, |e| e.0) {
            Ok(i) => v[i].1 = x,
            Err(i) => v.insert(i, (k, x)),
        }
        v
    };
    match (m, &*cur) {
        (M::AddDb { bad: true, .. } | M::AddContent { bad: true, .. }, _) => (s, 400, A::None),
        (M::AddDb { .. }, None) => (st.id(Some(vec![])), 201, A::None),
        (M::AddDb { over: true, .. }, Some(_)) => (st.id(Some(vec![])), 200, A::None),
        (M::AddDb { .. }, Some(_)) => (s, 200, A::None),
        (M::AddContent { content, .. }, None) => (st.id(Some(content.clone())), 201, A::None),
        (M::AddContent { content, over: true, .. }, Some(_)) => (st.id(Some(content.clone())), 200, A::None),
        (M::AddContent { content, .. }, Some(c)) => {
            let mut c = c.clone();
            for &(k, v) in content {
                c = put(&c, k, v);
            }
            (st.id(Some(c)), 200, A::None)
        }
        (M::RmDb, None) | (M::ClearDb, None) => (s, 410, A::None),
        (M::RmDb, Some(_)) => (st.id(None), 200, A::None),
        (M::ClearDb, Some(_)) => (st.id(Some(vec![])), 200, A::None),
        (M::AddKv { create: true, bad: true, .. }, None) => (s, 400, A::None),
        (M::AddKv { create: true, k, v, .. }, None) => (st.id(Some(vec![(*k, *v)])), 200, A::Created(3)),
        (M::AddKv { .. }, None) => (s, 200, A::Created(4)),
        (M::AddKv { k, v, over, .. }, Some(c)) => {
            if c.binary_search_by_key(k, |e| e.0).is_ok() {
                if *over {
                    (st.id(Some(put(c, *k, *v))), 200, A::Created(1))
                } else {
                    (s, 200, A::Created(2))
                }
            } else {
                (st.id(Some(put(c, *k, *v))), 200, A::Created(0))
            }
        }
        (M::RmKv { .. } | M::GetVal { .. } | M::GetDb, None) => (s, 410, A::None),
        (M::RmKv { k }, Some(c)) => match c.binary_search_by_key(k, |e| e.0) {
            Ok(i) => {
                let mut c = c.clone();
                c.remove(i);
                (st.id(Some(c)), 200, A::None)
            }
            Err(_) => (s, 400, A::None),
        },
        (M::GetVal { k }, Some(c)) => match c.binary_search_by_key(k, |e| e.0) {
            Ok(i) => (s, 200, A::Val(c[i].1)),
            Err(_) => (s, 400, A::None),
        },
        (M::GetDb, Some(_)) => (s, 200, A::Store(s)),
    }
}

struct Search<'a> {
    st: &'a mut States,
    ops: &'a [HOp],
    ///index into the composite state for each database, if it is part of this search
    slot: &'a [Option<usize>],
    memo: HashSet<(Box<[u64]>, Box<[u32]>)>,
    budget: u64,
    best: usize,
    best_text: String,
    trans: HashMap<(usize, u32), Option<u32>>,
    explain: bool,
    required: usize,
}

impl Search<'_> {
    ///the state after the operation, if its answer fits
    fn apply(&mut self, i: usize, s: &[u32]) -> Option<Option<(usize, u32)>> {
        match &self.ops[i].kind {
            Kind::Names(v) => {
                for (db, &there) in v.iter().enumerate() {
                    if let Some(x) = self.slot[db] {
                        if self.st.all[s[x] as usize].is_some() != there {
                            return None;
                        }
                    }
                }
                Some(None)
            }
            Kind::Is { db, state } => (s[self.slot[*db]?] == *state).then_some(None),
            Kind::Op { db, m, seen } => {
                let x = self.slot[*db]?;
                let cur = s[x];
                if let Some(t) = self.trans.get(&(i, cur)) {
                    return t.map(|n| if n == cur { None } else { Some((x, n)) });
                }
                let (n, status, a) = model(self.st, cur, m);
                let ok = match seen {
                    Seen::Any => true,
                    Seen::Statuses(v) => v.contains(&status),
                    Seen::Such(p) => status == 200 && self.st.get(cur).as_ref().as_ref().is_some_and(|c| p.0(c)),
                    Seen::Resp(c, b) => *c == status && (*b == a || (*b == A::None && !m.is_read()) || (status != 200 && *b == A::None)),
                };
                let t = ok.then_some(n);
                self.trans.insert((i, cur), t);
                t.map(|n| if n == cur { None } else { Some((x, n)) })
            }
        }
    }

    ///None: out of budget
    fn go(&mut self, done: &mut Box<[u64]>, s: &mut Box<[u32]>, left: usize) -> Option<bool> {
        if left == 0 {
            return Some(true);
        }
        let mut taken: Vec<usize> = vec![];
        let undo = |done: &mut Box<[u64]>, taken: &[usize]| {
            for &i in taken {
                done[i / 64] &= !(1 << (i % 64));
            }
        };
        let mut left = left;
        let cands = loop {
            if left == 0 {
                undo(done, &taken);
                return Some(true);
            }
            let is_done = |i: usize, done: &[u64]| done[i / 64] >> (i % 64) & 1 == 1;
            let mut minret = INF;
            for (i, o) in self.ops.iter().enumerate() {
                if o.required && o.ret < minret && !is_done(i, done) {
                    minret = o.ret;
                }
            }
            let mut c = vec![];
            for (i, o) in self.ops.iter().enumerate() {
                if o.inv >= minret {
                    break; // sorted by inv
                }
                if !is_done(i, done) && o.after.iter().all(|&a| is_done(a, done)) {
                    c.push(i);
                }
            }
            // what changes nothing and fits now can come now
            let mut again = false;
            for &i in &c {
                let o = &self.ops[i];
                if !o.required {
                    continue;
                }
                let pure = match &o.kind {
                    Kind::Names(_) | Kind::Is { .. } => true,
                    Kind::Op { m, seen, .. } => m.is_read() || matches!(seen, Seen::Resp(c, _) if *c >= 400),
                };
                if pure && self.apply(i, s) == Some(None) {
                    done[i / 64] |= 1 << (i % 64);
                    taken.push(i);
                    left -= 1;
                    again = true;
                    break;
                }
            }
            if !again {
                break c;
            }
        };
        if self.budget == 0 {
            undo(done, &taken);
            return None;
        }
        self.budget -= 1;
        let explained = self.required - left;
        if self.explain && (explained > self.best || self.best_text.is_empty()) {
            self.best = explained;
            let c: Vec<&str> = cands.iter().map(|&i| self.ops[i].text.as_str()).collect();
            self.best_text = format!("{explained} of {} explained; none of these fits next: {}", self.required, c.join(" | "));
        }
        if !self.memo.insert((done.clone(), s.clone())) {
            undo(done, &taken);
            return Some(false);
        }
        for pass in 0..2 {
            for &i in &cands {
                let req = self.ops[i].required;
                if req != (pass == 0) {
                    continue;
                }
                let Some(n) = self.apply(i, s) else { continue };
                if !req && n.is_none() {
                    continue; // it may wait
                }
                done[i / 64] |= 1 << (i % 64);
                let old = n.map(|(x, v)| (x, std::mem::replace(&mut s[x], v)));
                let r = self.go(done, s, left - usize::from(req));
                if let Some((x, v)) = old {
                    s[x] = v;
                }
                done[i / 64] &= !(1 << (i % 64));
                match r {
                    Some(false) => {}
                    r => {
                        undo(done, &taken);
                        return r;
                    }
                }
            }
        }
        undo(done, &taken);
        Some(false)
    }
}

///`ops` must be sorted by `inv`; only those on databases in `dbs` (and the names) matter
pub fn check(st: &mut States, ops: &[HOp], init: &[u32], dbs: &[usize], budget: u64) -> Verdict {
    let mut slot = vec![None; init.len()];
    let mut s = vec![];
    for (x, &d) in dbs.iter().enumerate() {
        slot[d] = Some(x);
        s.push(init[d]);
    }
    let required = ops.iter().filter(|o| o.required).count();
    let words = ops.len().div_ceil(64).max(1);
    let mut se = Search {
        st,
        ops,
        slot: &slot,
        memo: HashSet::new(),
        budget,
        best: 0,
        best_text: String::new(),
        trans: HashMap::new(),
        explain: false,
        required,
    };
    let mut done = vec![0u64; words].into_boxed_slice();
    let mut s = s.into_boxed_slice();
    match se.go(&mut done, &mut s, required) {
        Some(true) => Verdict::Yes,
        None => Verdict::Unknown,
        Some(false) => {
            se.memo.clear();
            se.explain = true;
            se.budget = budget;
            let _ = se.go(&mut done, &mut s, required);
            Verdict::No(se.best_text.clone())
        }
    }
}
