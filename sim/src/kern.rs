//! The simulated kernel: threads, virtual time, futexes, descriptors, sockets, files.
//!
//! Simulated threads are real threads, but only the one holding the baton runs; everything here is only ever touched
//! by that thread, so there are no locks.
use crate::disk::{Disk, Ino};
use crate::plan::{Fault, KCfg, Strategy};
use crate::raw;
use crate::result::{Body, FsLog, Snap, Stats};
use crate::rng::Rng;
use crate::alloc;
use std::cell::Cell;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};

pub const NONE: usize = usize::MAX;
pub const FD_BASE: i32 = 100_000;
pub const H: u8 = 0; // harness and clients
pub const D: u8 = 1; // the daemon

thread_local! {
    pub static TID: Cell<usize> = const { Cell::new(NONE) };
}
pub static mut KP: *mut Kern = std::ptr::null_mut();
///>0: inside the kernel (or harness bookkeeping), never preempt
pub static mut IN_KERN: u32 = 0;

#[inline]
pub fn is_sim() -> bool {
    TID.with(|t| t.get()) != NONE
}
#[inline]
#[allow(static_mut_refs)]
pub fn k() -> &'static mut Kern {
    unsafe { &mut *KP }
}

pub struct KG;
impl KG {
    #[inline]
    pub fn new() -> Self {
        unsafe { IN_KERN += 1 };
        KG
    }
}
impl Drop for KG {
    fn drop(&mut self) {
        unsafe { IN_KERN -= 1 };
    }
}

#[inline]
pub fn preemptible() -> bool {
    unsafe {
        if IN_KERN != 0 || KP.is_null() {
            return false;
        }
        let t = TID.with(|t| t.get());
        t != NONE && (*KP).cur == t && (&(*KP).threads)[t].dom == D
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Runnable,
    Blocked,
    Done,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake {
    None,
    Notified,
    Timeout,
}

pub struct Thr {
    pub dom: u8,
    pub st: St,
    pub baton: Box<AtomicU32>,
    pub pth: u64,
    pub wepoch: u64,
    pub wake: Wake,
    pub prio: u64,
    pub exited: bool,
}

///what a blocked thread can wait for
pub type Chan = u64;
pub const CH_OBJ: u64 = 1 << 32;
pub const CH_JOIN: u64 = 2 << 32;
pub const CH_MISC: u64 = 3 << 32;
pub const CH_LISTEN: u64 = CH_MISC + 1;
pub const CH_DEAD: u64 = CH_MISC + 2;
pub const CH_ACK: u64 = CH_MISC + 3;
pub const CH_SIG: u64 = CH_MISC + 4;
pub const CH_FSOP: u64 = CH_MISC + 5;

#[derive(Clone, Debug)]
pub enum Ev {
    Thread(usize, u64),
    Deliver { conn: usize, dir: usize },
    Connected { conn: usize, ok: bool },
    Fault(usize),
    Crash,
}
struct EvEnt(u64, u64, Ev);
impl PartialEq for EvEnt {
    fn eq(&self, o: &Self) -> bool {
        (self.0, self.1) == (o.0, o.1)
    }
}
impl Eq for EvEnt {}
impl PartialOrd for EvEnt {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for EvEnt {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.0, o.1).cmp(&(self.0, self.1)) // min-heap
    }
}

pub enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}
#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub flight: VecDeque<(u64, Seg)>,
    pub in_flight: usize,
    pub fin_sent: bool,
    pub fin: bool,
    pub rst: bool,
    pub last: u64,
    pub total: u64,
    pub sends: u64,
}
///a TCP connection or socket pair: direction 0 is from side 0 to side 1
pub struct Conn {
    pub pipes: [Pipe; 2],
    ///object of each side
    pub side: [Option<usize>; 2],
    ///closed for good (a side without an object may also be one that is not accepted yet)
    pub closed: [bool; 2],
    pub tcp: bool,
    pub cap: usize,
    pub port: u16,
    pub cport: u16,
    pub idx: usize,
}

pub struct Watch {
    pub obj: usize,
    pub events: u32,
    pub data: u64,
    pub pending: bool,
}
pub enum Kind {
    File { ino: Ino, pos: usize, read: bool, write: bool, append: bool, path: String, wrote: bool },
    Dir { ino: Ino, path: String },
    Epoll { watch: BTreeMap<i32, Watch>, ready: VecDeque<i32> },
    Event { count: u64 },
    Sock { bound: u16 },
    Listener { port: u16, queue: VecDeque<usize>, backlog: usize },
    Conn { conn: usize, side: usize, connected: bool, err: i32, rcvtimeo: u64, sndtimeo: u64 },
}
pub struct Obj {
    pub kind: Kind,
    pub refs: u32,
    pub nonblock: bool,
    pub watchers: Vec<usize>,
}
pub struct FdEnt {
    pub obj: usize,
    pub dom: u8,
}

pub struct FutexWaiter {
    tid: usize,
    wepoch: u64,
    bits: u32,
}

pub struct Kern {
    pub cfg: KCfg,
    pub rng: Rng,
    pub now: u64,
    pub t0: u64,
    pub wall_off: i64,
    pub steps: u64,
    pub switches: u64,
    pub cur: usize,
    pub threads: Vec<Thr>,
    evs: BinaryHeap<EvEnt>,
    evseq: u64,
    chans: BTreeMap<Chan, Vec<(usize, u64)>>,
    futexes: BTreeMap<usize, VecDeque<FutexWaiter>>,
    pub fds: BTreeMap<i32, FdEnt>,
    pub objs: Vec<Option<Obj>>,
    free_objs: Vec<usize>,
    pub conns: Vec<Option<Conn>>,
    pub listeners: BTreeMap<u16, usize>,
    next_port: u16,
    pub disk: Disk,
    pub base: String,
    pub faults: Vec<Fault>,
    pub fault_hits: Vec<u64>,
    pub fault_last: Vec<u64>,
    pub dead: bool,
    pub exit_code: Option<i32>,
    pub death: Option<String>,
    pub death_t: u64,
    pub sigs: BTreeMap<i32, usize>,
    ///who registered the handler, at which of its waits, and when
    pub sig_by: BTreeMap<i32, (usize, u64, u64)>,
    pub out: Vec<u8>,
    pub hash: u64,
    pub stats: Stats,
    pub fs_inflight: u64,
    fs_busy_since: u64,
    pub fs_busy: Vec<(u64, u64)>,
    pub fs_mut_ops: u64,
    pub fs_log: Vec<FsLog>,
    pub snaps: Vec<Snap>,
    pub escapes: Vec<String>,
    pub unsupported: Vec<String>,
    pub crash: Option<CrashTrig>,
    pub seq: u64,
    pub max_steps: u64,
    pub max_time: u64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pct_points: Vec<u64>,
    pub spawn_dom: Option<u8>,
    pub listening: bool,
    pub last_fault: u64,
    ///of those that delay something by themselves
    pub last_delay: u64,
    pub acks: u64,
    pub clients_left: u64,
    ///objects which reset their connection when closed
    pub linger0: std::collections::BTreeSet<usize>,
    pub last_disk_fault: u64,
    pub stall_total: u64,
    ///a failing attempt to write after the signal
    pub disk_attempt_after: u64,
}

#[derive(Clone, Debug)]
pub struct CrashTrig {
    pub step: u64,
    pub fs_op: u64,
    ///0 before, 1 in the middle, 2 after
    pub phase: u8,
    pub power: bool,
}

extern "C" {
    static mut SIM_FOLDHASH_SEED: [u64; 4];
}

impl Kern {
    pub fn new(cfg: KCfg, rng: Rng, disk: Disk, now: u64, base: String, faults: Vec<Fault>) -> Self {
        let n = faults.len();
        let mut s = Self {
            max_steps: cfg.max_steps,
            cfg,
            rng,
            now,
            t0: now,
            wall_off: 0,
            steps: 0,
            switches: 0,
            cur: NONE,
            threads: vec![],
            evs: BinaryHeap::new(),
            evseq: 0,
            chans: BTreeMap::new(),
            futexes: BTreeMap::new(),
            fds: BTreeMap::new(),
            objs: vec![],
            free_objs: vec![],
            conns: vec![],
            listeners: BTreeMap::new(),
            next_port: 40000,
            disk,
            base,
            faults,
            fault_hits: vec![0; n],
            fault_last: vec![0; n],
            dead: false,
            exit_code: None,
            death: None,
            death_t: 0,
            sigs: BTreeMap::new(),
            sig_by: BTreeMap::new(),
            out: vec![],
            hash: 0xcbf2_9ce4_8422_2325,
            stats: Stats::default(),
            fs_inflight: 0,
            fs_busy_since: 0,
            fs_busy: vec![],
            fs_mut_ops: 0,
            fs_log: vec![],
            snaps: vec![],
            escapes: vec![],
            unsupported: vec![],
            crash: None,
            seq: 0,
            max_time: now + 3600 * 1_000_000_000,
            trace_on: false,
            trace: vec![],
            pct_points: vec![],
            spawn_dom: None,
            listening: false,
            last_fault: 0,
            last_delay: 0,
            acks: 0,
            clients_left: 0,
            linger0: std::collections::BTreeSet::new(),
            last_disk_fault: 0,
            stall_total: 0,
            disk_attempt_after: 0,
        };
        unsafe {
            for i in 0..4 {
                SIM_FOLDHASH_SEED[i] = s.rng.next() | (1 << 63) | (1 << 31) | 1;
            }
        }
        if let Strategy::Pct { depth, len } = s.cfg.strategy {
            for _ in 0..depth {
                let p = s.rng.below(len);
                s.pct_points.push(p);
            }
            s.pct_points.sort_unstable();
        }
        for i in 0..n {
            let at = s.faults[i].starts();
            s.at(s.t0 + at, Ev::Fault(i));
        }
        s
    }

    pub fn rel(&self) -> u64 {
        self.now - self.t0
    }

    pub fn tr(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            let s = format!("{:>8} {:>12.6} T{} {}", self.steps, self.rel() as f64 * 1e-9, self.cur, f());
            if std::env::var_os("SIM_LIVE").is_some() {
                raw::write_err(&s);
                raw::write_err("\n");
            }
            self.trace.push(s);
        }
    }

    #[inline]
    pub fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17);
    }

    pub fn at(&mut self, t: u64, e: Ev) {
        self.evseq += 1;
        self.evs.push(EvEnt(t, self.evseq, e));
    }

    pub fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    // ---------------------------------------------------------------- scheduling

    ///one step of the running thread: time passes, events happen, the scheduler may choose another thread
    pub fn point(&mut self, kind: u32, arg: u64) {
        self.steps += 1;
        self.now += 150 + self.rng.below(self.cfg.tick_max);
        let c = self.cur as u64;
        self.mix((u64::from(kind) << 40) ^ (c << 56) ^ arg);
        self.run_due();
        if let Some(c) = &self.crash {
            if self.steps >= c.step {
                let p = c.power;
                crate::epoch::finish_crash(p);
            }
        }
        if self.steps >= self.max_steps {
            crate::epoch::finish(crate::result::Outcome::StepBudget);
        }
        if self.now >= self.max_time {
            crate::epoch::finish(crate::result::Outcome::TimeBudget);
        }
        if self.steps < self.cfg.quiet_after {
            // a slow thread: others and time go on while it stands still
            if self.cfg.stall_num > 0 && self.rng.chance(self.cfg.stall_num, 100_000) {
                let d = self.rng.logrange(1_000, self.cfg.stall_max.max(1_001));
                self.stats.thread_stalls += 1;
                self.stall_total += d;
                self.tr(|| format!("thread stalls for {d}ns"));
                self.block(&[], Some(self.now + d));
                return;
            }
            self.maybe_preempt();
        }
    }

    fn maybe_preempt(&mut self) {
        let go = match self.cfg.strategy {
            Strategy::Sticky => false,
            Strategy::Random { per_mille } => self.rng.chance(per_mille, 1000),
            Strategy::Pct { .. } => {
                if self.pct_points.first().is_some_and(|&p| self.steps >= p) {
                    self.pct_points.remove(0);
                    let c = self.cur;
                    self.threads[c].prio = self.pct_points.len() as u64; // lower than all initial ones
                }
                true
            }
        };
        if go {
            let n = self.choose();
            if n != self.cur {
                self.stats.preemptions += 1;
            }
            self.switch(n);
        }
    }

    pub fn yield_now(&mut self) {
        if let Strategy::Pct { .. } = self.cfg.strategy {
            let c = self.cur;
            self.threads[c].prio /= 2;
        }
        // somebody else if possible
        let r: Vec<usize> =
            (0..self.threads.len()).filter(|&i| i != self.cur && self.threads[i].st == St::Runnable).collect();
        if r.is_empty() {
            // spinning: let time pass so that whatever is waited for can happen
            self.now += 2_000;
            self.run_due();
        } else {
            let n = r[self.rng.us(r.len())];
            self.switch(n);
        }
    }

    ///a runnable thread (there is one)
    fn choose(&mut self) -> usize {
        if let Strategy::Pct { .. } = self.cfg.strategy {
            let mut best = NONE;
            for (i, t) in self.threads.iter().enumerate() {
                if t.st == St::Runnable && (best == NONE || t.prio > self.threads[best].prio) {
                    best = i;
                }
            }
            return best;
        }
        let mut n = 0;
        let mut only = NONE;
        for (i, t) in self.threads.iter().enumerate() {
            if t.st == St::Runnable {
                n += 1;
                only = i;
            }
        }
        if n == 1 {
            return only;
        }
        let quiet = self.steps >= self.cfg.quiet_after;
        let mut j = if quiet { 0 } else { self.rng.us(n) };
        for (i, t) in self.threads.iter().enumerate() {
            if t.st == St::Runnable {
                if j == 0 {
                    return i;
                }
                j -= 1;
            }
        }
        unreachable!()
    }

    fn switch(&mut self, next: usize) {
        let me = self.cur;
        if next == me {
            return;
        }
        self.switches += 1;
        self.mix(next as u64 | 1 << 63);
        self.cur = next;
        let done = self.threads[me].st == St::Done;
        let theirs: *const AtomicU32 = &*self.threads[next].baton;
        let mine: *const AtomicU32 = &*self.threads[me].baton;
        unsafe {
            let saved = IN_KERN;
            IN_KERN = 0;
            (*theirs).store(1, Ordering::Release);
            raw::futex_wake(theirs as *const u32);
            if done {
                return; // never comes back: the caller ends or parks the real thread
            }
            wait_baton(&*mine);
            IN_KERN = saved;
        }
    }

    ///hands the baton to somebody else; returns when this thread was chosen again
    pub fn schedule(&mut self) {
        loop {
            self.run_due();
            if self.threads.iter().any(|t| t.st == St::Runnable) {
                break;
            }
            match self.evs.peek() {
                Some(e) => {
                    if e.0 > self.now {
                        self.now = e.0;
                    }
                    if self.now >= self.max_time {
                        crate::epoch::finish(crate::result::Outcome::TimeBudget);
                    }
                }
                None => crate::epoch::finish(crate::result::Outcome::Deadlock),
            }
        }
        let n = self.choose();
        self.switch(n);
    }

    pub fn block(&mut self, chans: &[Chan], deadline: Option<u64>) -> Wake {
        let c = self.cur;
        let t = &mut self.threads[c];
        t.wepoch += 1;
        let we = t.wepoch;
        t.st = St::Blocked;
        t.wake = Wake::None;
        for &ch in chans {
            self.chans.entry(ch).or_default().push((c, we));
        }
        if let Some(d) = deadline {
            self.at(d, Ev::Thread(c, we));
        }
        self.schedule();
        self.threads[c].wake
    }

    pub fn sleep_g(&mut self, d: u64) {
        let _g = KG::new();
        self.sleep(d);
    }
    pub fn sleep(&mut self, d: u64) {
        let t = self.now + d;
        self.block(&[], Some(t));
    }

    ///the last of the daemon's timers in the next seconds: what it does periodically
    pub fn daemon_timer(&self) -> u64 {
        let soon = self.now + 1_000_000_000;
        let it = self.evs.iter().filter(|e| e.0 > soon && e.0 < soon + 10_000_000_000);
        let mine = it.filter(|e| match e.2 {
            Ev::Thread(t, we) => self.threads[t].dom == D && self.threads[t].st == St::Blocked && self.threads[t].wepoch == we,
            _ => false,
        });
        mine.map(|e| e.0).max().unwrap_or(self.now)
    }
    pub fn notify(&mut self, ch: Chan) {
        if let Some(v) = self.chans.remove(&ch) {
            for (t, we) in v {
                let th = &mut self.threads[t];
                if th.st == St::Blocked && th.wepoch == we {
                    th.st = St::Runnable;
                    th.wake = Wake::Notified;
                }
            }
        }
    }

    fn run_due(&mut self) {
        while let Some(e) = self.evs.peek() {
            if e.0 > self.now {
                break;
            }
            let e = self.evs.pop().unwrap();
            match e.2 {
                Ev::Thread(t, we) => {
                    let th = &mut self.threads[t];
                    if th.st == St::Blocked && th.wepoch == we {
                        th.st = St::Runnable;
                        th.wake = Wake::Timeout;
                    }
                }
                Ev::Deliver { conn, dir } => self.deliver(conn, dir),
                Ev::Connected { conn, ok } => self.connected(conn, ok),
                Ev::Fault(i) => self.fault_event(i),
                Ev::Crash => {
                    let p = self.crash.as_ref().is_some_and(|c| c.power);
                    crate::epoch::finish_crash(p);
                }
            }
        }
    }

    // ---------------------------------------------------------------- threads

    ///registers a thread which will wait for its baton
    pub fn add_thread(&mut self, dom: u8) -> usize {
        let prio = (1 << 32) + self.rng.below(1 << 32);
        self.threads.push(Thr {
            dom,
            st: St::Runnable,
            baton: Box::new(AtomicU32::new(0)),
            pth: 0,
            wepoch: 0,
            wake: Wake::None,
            prio,
            exited: false,
        });
        self.threads.len() - 1
    }

    pub fn thread_exit(&mut self) {
        let c = self.cur;
        self.threads[c].st = St::Done;
        self.threads[c].exited = true;
        self.tr(|| "thread exits".into());
        self.notify(CH_JOIN + c as u64);
        self.schedule();
    }

    ///the daemon process is over
    pub fn kill_daemon(&mut self, why: &str) {
        if self.dead {
            return;
        }
        self.tr(|| format!("daemon is dead: {why}"));
        self.dead = true;
        self.death = Some(why.to_string());
        self.death_t = self.now;
        for t in &mut self.threads {
            if t.dom == D {
                t.st = St::Done;
            }
        }
        let fds: Vec<i32> = self.fds.iter().filter(|(_, e)| e.dom == D).map(|(&f, _)| f).collect();
        for f in fds {
            // a pair of local sockets (the self-pipe of the signal handling) is shared with the clients in here
            let o = self.fds[&f].obj;
            let conn = match &self.obj(o).kind {
                Kind::Conn { conn, .. } => Some(*conn),
                _ => None,
            };
            let local = conn.is_some_and(|c| !self.conns[c].as_ref().unwrap().tcp);
            if !local {
                let _ = self.close(f);
            }
        }
        if self.fs_inflight > 0 {
            self.fs_inflight = 0;
            self.fs_busy.push((self.fs_busy_since, self.now));
        }
        self.notify(CH_DEAD);
        self.notify(CH_LISTEN);
    }

    pub fn dom(&self) -> u8 {
        self.threads[self.cur].dom
    }

    // ---------------------------------------------------------------- futex

    pub fn futex_wait(&mut self, addr: usize, val: u32, deadline: Option<u64>, bits: u32) -> i32 {
        self.point(1, 0);
        let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
        if cur != val {
            return libc::EAGAIN;
        }
        if deadline.is_some_and(|d| d <= self.now) {
            return libc::ETIMEDOUT;
        }
        let c = self.cur;
        let we = self.threads[c].wepoch + 1;
        self.futexes.entry(addr).or_default().push_back(FutexWaiter { tid: c, wepoch: we, bits });
        match self.block(&[], deadline) {
            Wake::Timeout => {
                if let Some(q) = self.futexes.get_mut(&addr) {
                    q.retain(|w| !(w.tid == c && w.wepoch == we));
                    if q.is_empty() {
                        self.futexes.remove(&addr);
                    }
                }
                libc::ETIMEDOUT
            }
            _ => 0,
        }
    }
    pub fn futex_wake(&mut self, addr: usize, n: u32, bits: u32) -> usize {
        self.point(2, u64::from(n));
        let mut woken = 0;
        if let Some(mut q) = self.futexes.remove(&addr) {
            let mut i = 0;
            while i < q.len() && woken < n as usize {
                if q[i].bits & bits == 0 {
                    i += 1;
                    continue;
                }
                let w = q.remove(i).unwrap();
                let th = &mut self.threads[w.tid];
                if th.st == St::Blocked && th.wepoch == w.wepoch {
                    th.st = St::Runnable;
                    th.wake = Wake::Notified;
                    woken += 1;
                }
            }
            if !q.is_empty() {
                self.futexes.insert(addr, q);
            }
        }
        woken
    }

    // ---------------------------------------------------------------- descriptors

    pub fn new_obj(&mut self, kind: Kind, nonblock: bool) -> usize {
        let o = Obj { kind, refs: 0, nonblock, watchers: vec![] };
        if let Some(i) = self.free_objs.pop() {
            self.objs[i] = Some(o);
            i
        } else {
            self.objs.push(Some(o));
            self.objs.len() - 1
        }
    }
    pub fn new_fd(&mut self, obj: usize) -> i32 {
        let mut fd = FD_BASE;
        for &f in self.fds.keys() {
            if f == fd {
                fd += 1;
            } else {
                break;
            }
        }
        let dom = self.dom();
        self.fds.insert(fd, FdEnt { obj, dom });
        self.obj(obj).refs += 1;
        fd
    }
    pub fn obj(&mut self, i: usize) -> &mut Obj {
        self.objs[i].as_mut().expect("obj")
    }
    pub fn fdobj(&self, fd: i32) -> Result<usize, i32> {
        self.fds.get(&fd).map(|e| e.obj).ok_or(libc::EBADF)
    }

    pub fn close(&mut self, fd: i32) -> Result<(), i32> {
        let e = self.fds.remove(&fd).ok_or(libc::EBADF)?;
        let o = e.obj;
        // epoll forgets this descriptor
        for w in self.obj(o).watchers.clone() {
            if let Some(Obj { kind: Kind::Epoll { watch, .. }, .. }) = self.objs[w].as_mut() {
                if self.fds.values().all(|x| x.obj != o) {
                    watch.remove(&fd);
                }
            }
        }
        let ob = self.obj(o);
        ob.refs -= 1;
        if ob.refs > 0 {
            return Ok(());
        }
        let ob = self.objs[o].take().unwrap();
        for w in ob.watchers {
            if let Some(Some(Obj { kind: Kind::Epoll { watch, .. }, .. })) = self.objs.get_mut(w) {
                watch.retain(|_, x| x.obj != o);
            }
        }
        self.free_objs.push(o);
        let linger0 = self.linger0.remove(&o);
        match ob.kind {
            Kind::Listener { port, queue, .. } => {
                self.listeners.remove(&port);
                for c in queue {
                    self.reset(c, 1);
                }
            }
            Kind::Conn { conn, side, .. } => {
                let (unread, tcp) = {
                    let c = self.conns[conn].as_mut().unwrap();
                    c.side[side] = None;
                    c.closed[side] = true;
                    (!c.pipes[1 - side].buf.is_empty(), c.tcp)
                };
                if (unread || linger0) && tcp {
                    self.send_seg(conn, side, Seg::Rst);
                } else {
                    self.send_fin(conn, side);
                }
                self.drop_conn_if_unused(conn);
            }
            Kind::File { path, write: true, wrote: true, .. } => {
                self.snap_if_meta(&path);
            }
            _ => {}
        }
        // whoever still waits on it must notice
        self.notify(CH_OBJ + o as u64);
        Ok(())
    }

    fn drop_conn_if_unused(&mut self, conn: usize) {
        let c = self.conns[conn].as_ref().unwrap();
        if c.closed == [true, true] && c.pipes.iter().all(|p| p.flight.is_empty()) {
            // kept as a tombstone: indices stay unique
            let c = self.conns[conn].as_mut().unwrap();
            for p in &mut c.pipes {
                p.buf = VecDeque::new();
            }
        }
    }

    // ---------------------------------------------------------------- epoll

    pub fn readiness(&mut self, o: usize) -> u32 {
        const IN: u32 = libc::EPOLLIN as u32;
        const OUT: u32 = libc::EPOLLOUT as u32;
        const ERR: u32 = libc::EPOLLERR as u32;
        const HUP: u32 = libc::EPOLLHUP as u32;
        const RDHUP: u32 = libc::EPOLLRDHUP as u32;
        match &self.objs[o].as_ref().unwrap().kind {
            Kind::Event { count } => (if *count > 0 { IN } else { 0 }) | OUT,
            Kind::Listener { queue, .. } => {
                if queue.is_empty() {
                    0
                } else {
                    IN
                }
            }
            Kind::Conn { conn, side, connected, err, .. } => {
                let mut r = 0;
                if *err != 0 {
                    return IN | OUT | ERR | HUP | RDHUP;
                }
                if !connected {
                    return 0;
                }
                let c = self.conns[*conn].as_ref().unwrap();
                let rx = &c.pipes[1 - side];
                let tx = &c.pipes[*side];
                if !rx.buf.is_empty() || rx.fin {
                    r |= IN;
                }
                if rx.fin {
                    r |= RDHUP;
                }
                if rx.fin && tx.fin_sent {
                    r |= HUP;
                }
                if rx.rst {
                    r |= IN | OUT | ERR | HUP | RDHUP;
                }
                if tx.in_flight + tx.buf.len() < c.cap || tx.fin_sent {
                    r |= OUT;
                }
                r
            }
            Kind::Sock { .. } => OUT | HUP,
            Kind::File { .. } | Kind::Dir { .. } => IN | OUT,
            Kind::Epoll { .. } => 0,
        }
    }

    ///something happened to an object
    pub fn notify_obj(&mut self, o: usize) {
        self.notify(CH_OBJ + o as u64);
        if self.objs[o].is_none() {
            return;
        }
        let ws = std::mem::take(&mut self.obj(o).watchers);
        for &w in &ws {
            if let Some(Some(Obj { kind: Kind::Epoll { watch, ready }, .. })) = self.objs.get_mut(w) {
                let mut any = false;
                for (fd, x) in watch.iter_mut() {
                    if x.obj == o {
                        if !x.pending {
                            x.pending = true;
                            ready.push_back(*fd);
                        }
                        any = true;
                    }
                }
                if any {
                    self.notify(CH_OBJ + w as u64);
                }
            }
        }
        self.obj(o).watchers = ws;
    }

    pub fn epoll_collect(&mut self, ep: usize, max: usize) -> Vec<(u32, u64)> {
        let mut out = vec![];
        let n = match &self.obj(ep).kind {
            Kind::Epoll { ready, .. } => ready.len(),
            _ => 0,
        };
        for _ in 0..n {
            if out.len() >= max {
                break;
            }
            let Kind::Epoll { watch, ready } = &mut self.obj(ep).kind else { unreachable!() };
            let Some(fd) = ready.pop_front() else { break };
            let Some(w) = watch.get_mut(&fd) else { continue };
            if !w.pending {
                continue;
            }
            let (o, ev, data) = (w.obj, w.events, w.data);
            let r = self.readiness(o) & (ev | libc::EPOLLERR as u32 | libc::EPOLLHUP as u32);
            let Kind::Epoll { watch, ready } = &mut self.obj(ep).kind else { unreachable!() };
            let w = watch.get_mut(&fd).unwrap();
            if r == 0 {
                w.pending = false;
                continue;
            }
            out.push((r, data));
            if ev & libc::EPOLLET as u32 != 0 {
                w.pending = false;
            } else {
                ready.push_back(fd);
            }
            if ev & libc::EPOLLONESHOT as u32 != 0 {
                w.pending = false;
                w.events = 0;
            }
        }
        out
    }

    // ---------------------------------------------------------------- network

    fn net_delay(&mut self) -> u64 {
        let n = &self.cfg.net;
        let (lat, jit) = (n.lat, n.jitter);
        let mut d = lat + if jit > 0 { self.rng.below(jit) } else { 0 };
        let rel = self.rel();
        for i in 0..self.faults.len() {
            if let Fault::NetLat { from, to, add } = self.faults[i] {
                if rel >= from && rel < to {
                    self.fault_hits[i] += 1;
                    d += self.rng.below(add.max(1));
                }
            }
        }
        d
    }
    ///when the network lets a segment through that would arrive at t
    fn net_hold(&mut self, conn: usize, t: u64) -> u64 {
        let idx = self.conns[conn].as_ref().unwrap().idx;
        let mut t = t;
        for i in 0..self.faults.len() {
            if let Fault::NetStall { from, to, conn: c } = self.faults[i] {
                if t >= self.t0 + from && t < self.t0 + to && c.is_none_or(|c| c == idx) {
                    t = self.t0 + to;
                    self.fault_hits[i] += 1;
                    self.last_fault = self.last_fault.max(t);
                    self.last_delay = self.last_delay.max(t);
                }
            }
        }
        t
    }

    pub fn send_seg(&mut self, conn: usize, side: usize, s: Seg) {
        let tcp = self.conns[conn].as_ref().unwrap().tcp;
        let d = if tcp { self.net_delay() } else { 0 };
        let mut t = (self.now + d).max(self.conns[conn].as_ref().unwrap().pipes[side].last);
        if tcp {
            t = self.net_hold(conn, t);
        }
        let p = &mut self.conns[conn].as_mut().unwrap().pipes[side];
        p.last = t;
        match &s {
            Seg::Data(d) => p.in_flight += d.len(),
            Seg::Fin | Seg::Rst => p.fin_sent = true,
        }
        p.flight.push_back((t, s));
        if t <= self.now {
            self.deliver(conn, side);
        } else {
            self.at(t, Ev::Deliver { conn, dir: side });
        }
    }
    fn send_fin(&mut self, conn: usize, side: usize) {
        if !self.conns[conn].as_ref().unwrap().pipes[side].fin_sent {
            self.send_seg(conn, side, Seg::Fin);
        }
    }
    fn deliver(&mut self, conn: usize, dir: usize) {
        let now = self.now;
        let mut reset_back = false;
        loop {
            let c = self.conns[conn].as_mut().unwrap();
            let gone = c.closed[1 - dir];
            let p = &mut c.pipes[dir];
            match p.flight.front() {
                Some((t, _)) if *t <= now => {}
                _ => break,
            }
            let (_, s) = p.flight.pop_front().unwrap();
            match s {
                Seg::Data(d) => {
                    p.in_flight -= d.len();
                    p.total += d.len() as u64;
                    if gone {
                        reset_back = true;
                    } else if !p.rst {
                        p.buf.extend(d);
                    }
                }
                Seg::Fin => p.fin = true,
                Seg::Rst => {
                    p.rst = true;
                    p.buf.clear();
                    // nothing goes the other way either
                    let q = &mut c.pipes[1 - dir];
                    q.fin_sent = true;
                }
            }
        }
        let c = self.conns[conn].as_ref().unwrap();
        let (to, from, tcp) = (c.side[1 - dir], c.side[dir], c.tcp);
        if let Some(o) = to {
            self.notify_obj(o);
        }
        if let Some(o) = from {
            self.notify_obj(o);
        }
        if reset_back && tcp && from.is_some() {
            self.send_seg(conn, 1 - dir, Seg::Rst);
        }
    }
    ///how much of the next piece gets through if the connection is cut in it, and how it ends
    pub fn cut(&mut self, conn: usize, side: usize, len: usize) -> Option<(usize, bool)> {
        let c = self.conns[conn].as_mut().unwrap();
        if !c.tcp {
            return None;
        }
        let n = c.pipes[side].sends;
        c.pipes[side].sends += 1;
        let idx = c.idx;
        for i in 0..self.faults.len() {
            if let Fault::NetCut { conn: x, dir, nth, back, fin } = self.faults[i] {
                if dir == side && nth == n && self.fault_hits[i] == 0 && x.is_none_or(|x| x == idx) {
                    self.fault_hits[i] += 1;
                    self.last_fault = self.last_fault.max(self.now + 1_000_000_000);
                    self.last_delay = self.last_delay.max(self.now + 1_000_000_000);
                    self.tr(|| format!("connection {idx} is cut"));
                    return Some((len.saturating_sub(back.max(1)), fin));
                }
            }
        }
        None
    }
    ///nothing more gets through: the receiver sees the end, the sender that the connection is gone
    pub fn cut_off(&mut self, conn: usize, side: usize, fin: bool) {
        if !fin {
            // what was received before is still read, as the reset arrives after it
            self.send_seg(conn, side, Seg::Rst);
        } else {
            self.send_fin(conn, side);
        }
        let c = self.conns[conn].as_mut().unwrap();
        let q = &mut c.pipes[1 - side];
        q.flight.clear();
        q.in_flight = 0;
        q.buf.clear();
        q.rst = true;
        q.fin_sent = true;
        if let Some(o) = self.conns[conn].as_ref().unwrap().side[side] {
            self.notify_obj(o);
        }
    }
    ///both sides see a reset
    pub fn reset(&mut self, conn: usize, _why: usize) {
        for dir in 0..2 {
            let c = self.conns[conn].as_mut().unwrap();
            let p = &mut c.pipes[dir];
            p.flight.clear();
            p.in_flight = 0;
            p.buf.clear();
            p.rst = true;
            p.fin_sent = true;
        }
        for s in 0..2 {
            if let Some(o) = self.conns[conn].as_ref().unwrap().side[s] {
                self.notify_obj(o);
            }
        }
    }

    pub fn new_conn(&mut self, tcp: bool, port: u16, cport: u16) -> usize {
        let cap = if tcp { self.cfg.net.cap } else { 200_000 };
        let idx = self.conns.iter().flatten().filter(|c| c.tcp).count();
        self.conns.push(Some(Conn {
            pipes: [Pipe::default(), Pipe::default()],
            side: [None, None],
            closed: [false, false],
            tcp,
            cap,
            port,
            cport,
            idx,
        }));
        self.conns.len() - 1
    }

    ///starts connecting: the object is turned into a connection
    pub fn connect(&mut self, o: usize, port: u16) {
        let cport = self.next_port;
        self.next_port = self.next_port.wrapping_add(1).max(40000);
        let conn = self.new_conn(true, port, cport);
        self.conns[conn].as_mut().unwrap().side[0] = Some(o);
        self.obj(o).kind = Kind::Conn { conn, side: 0, connected: false, err: 0, rcvtimeo: 0, sndtimeo: 0 };
        let d = self.net_delay();
        let t = self.net_hold(conn, self.now + d);
        let ok = true;
        self.stats.connections += 1;
        self.at(t, Ev::Connected { conn, ok });
    }
    fn connected(&mut self, conn: usize, ok: bool) {
        let port = self.conns[conn].as_ref().unwrap().port;
        let Some(o) = self.conns[conn].as_ref().unwrap().side[0] else { return };
        let lst = self.listeners.get(&port).copied();
        let full = match lst {
            Some(l) => match &self.obj(l).kind {
                Kind::Listener { queue, backlog, .. } => queue.len() >= *backlog,
                _ => true,
            },
            None => true,
        };
        let good = ok && !full;
        if let Kind::Conn { connected, err, .. } = &mut self.obj(o).kind {
            if good {
                *connected = true;
            } else {
                *err = libc::ECONNREFUSED;
            }
        }
        if good {
            let l = lst.unwrap();
            if let Kind::Listener { queue, .. } = &mut self.obj(l).kind {
                queue.push_back(conn);
            }
            self.notify_obj(l);
        }
        self.notify_obj(o);
    }

    // ---------------------------------------------------------------- faults

    fn fault_event(&mut self, i: usize) {
        let f = self.faults[i].clone();
        self.tr(|| format!("fault begins: {f:?}"));
        match f {
            Fault::NetReset { conn, .. } => {
                let n = self.conns.len();
                for c in 0..n {
                    let Some(cn) = self.conns[c].as_ref() else { continue };
                    if cn.tcp && conn.is_none_or(|x| x == cn.idx) && cn.side[0].is_some() && cn.side[1].is_some() {
                        self.fault_hits[i] += 1;
                        self.reset(c, 0);
                    }
                }
                self.last_fault = self.last_fault.max(self.now);
                self.last_delay = self.last_delay.max(self.now);
            }
            Fault::ClockJump { delta, .. } => {
                self.wall_off += delta;
                self.fault_hits[i] += 1;
            }
            _ => {}
        }
    }

    ///is a disk fault due for this operation?
    pub fn disk_fault(&mut self, op: u32, path: &str) -> Option<i32> {
        let rel = self.rel();
        for i in 0..self.faults.len() {
            if let Fault::Disk { from, to, ops, errno, percent, path: p, max } = &self.faults[i] {
                let (from, to, ops, errno, percent, max) = (*from, *to, *ops, *errno, *percent, *max);
                if rel >= from
                    && rel < to
                    && ops & op != 0
                    && self.fault_hits[i] < max
                    && p.as_ref().is_none_or(|p| path.contains(p.as_str()))
                    && self.rng.chance(percent, 100)
                {
                    self.fault_hits[i] += 1;
                    self.fault_last[i] = self.now;
                    self.last_fault = self.last_fault.max(self.now);
                    self.last_disk_fault = self.last_disk_fault.max(self.now);
                    if crate::epoch::ctx().signal_seq > 0 && op & (OP_MUTATING | OP_OPEN) != 0 && !op & OP_UNLINK != 0 {
                        self.disk_attempt_after += 1;
                    }
                    *self.stats.disk_errors.entry(format!("{}:{}", op_name(op), errno)).or_insert(0) += 1;
                    self.tr(|| format!("disk fault {errno} for {} {path}", op_name(op)));
                    return Some(errno);
                }
            }
        }
        None
    }
    pub fn short(&mut self, op: u32) -> bool {
        let rel = self.rel();
        for i in 0..self.faults.len() {
            if let Fault::Short { from, to, ops, percent } = self.faults[i] {
                if rel >= from && rel < to && ops & op != 0 && self.rng.chance(percent, 100) {
                    self.fault_hits[i] += 1;
                    self.stats.short_io += 1;
                    return true;
                }
            }
        }
        false
    }
    pub fn accept_fault(&mut self) -> Option<i32> {
        let rel = self.rel();
        for i in 0..self.faults.len() {
            if let Fault::Accept { from, to, errno, max } = self.faults[i] {
                if rel >= from && rel < to && self.fault_hits[i] < max {
                    self.fault_hits[i] += 1;
                    self.last_fault = self.last_fault.max(self.now);
                    self.last_delay = self.last_delay.max(self.now);
                    return Some(errno);
                }
            }
        }
        None
    }

    pub fn bind_fault(&mut self) -> Option<i32> {
        for i in 0..self.faults.len() {
            if let Fault::Bind { errno, max } = self.faults[i] {
                if self.fault_hits[i] < max {
                    self.fault_hits[i] += 1;
                    self.last_fault = self.last_fault.max(self.now);
                    return Some(errno);
                }
            }
        }
        None
    }

    // ---------------------------------------------------------------- file operations of the daemon

    pub fn fs_begin(&mut self) {
        if self.fs_inflight == 0 {
            self.fs_busy_since = self.now;
        }
        self.fs_inflight += 1;
    }
    pub fn fs_end(&mut self) {
        if self.fs_inflight > 0 {
            self.fs_inflight -= 1;
            if self.fs_inflight == 0 {
                match self.fs_busy.last_mut() {
                    Some(l) if l.1 + 1000 >= self.fs_busy_since => l.1 = self.now,
                    _ => self.fs_busy.push((self.fs_busy_since, self.now)),
                }
            }
        }
    }
    ///is whoever registered the handler surely done with that?
    pub fn sig_ready(&self, sig: i32) -> bool {
        match self.sig_by.get(&sig) {
            Some(&(t, we, at)) => self.threads[t].wepoch > we && self.now >= at + 50_000_000,
            None => false,
        }
    }
    ///time that was lost to disks and stalled threads from then on
    pub fn lost_since(&self, from: u64) -> u64 {
        self.fs_busy_all().iter().map(|&(a, b)| b.saturating_sub(a.max(from))).sum()
    }
    pub fn fs_busy_all(&self) -> Vec<(u64, u64)> {
        let mut v = self.fs_busy.clone();
        if self.fs_inflight > 0 {
            v.push((self.fs_busy_since, self.now));
        }
        v
    }

    pub fn fs_delay(&mut self, op: u32) {
        let c = &self.cfg.disk;
        let (a, b) = if op & (OP_FSYNC | OP_FSYNCDIR) != 0 { (c.sync_min, c.sync_max) } else { (c.op_min, c.op_max) };
        let mut d = self.rng.logrange(a.max(1), b.max(2));
        let rel = self.rel();
        for i in 0..self.faults.len() {
            if let Fault::DiskStall { from, to, ops, add } = self.faults[i] {
                if rel >= from && rel < to && ops & op != 0 {
                    self.fault_hits[i] += 1;
                    d += self.rng.range(add / 2, add);
                    self.last_fault = self.last_fault.max(self.now + d);
                    self.last_delay = self.last_delay.max(self.now + d);
                    self.stats.disk_stalls += 1;
                }
            }
        }
        self.block(&[], Some(self.now + d));
    }

    pub fn shut_wr(&mut self, conn: usize, side: usize) {
        self.send_fin(conn, side);
    }
    ///the process or the power goes now
    pub fn crash_now(&mut self) -> ! {
        let p = self.crash.as_ref().is_some_and(|c| c.power);
        crate::epoch::finish_crash(p)
    }
    pub fn crash_here(&mut self, phase: u8) {
        if self.crash_check(phase) {
            self.crash_now();
        }
    }
    ///is this a path that the daemon must not change?
    pub fn is_outside(&self, p: &str, op: u32) -> bool {
        let c = crate::disk::canonical(p);
        let base = &self.base;
        let inside = c.starts_with(&format!("{base}/"));
        let ancestor = op == OP_MKDIR && (*base == c || base.starts_with(&format!("{c}/")));
        !inside && !ancestor
    }

    ///called before (0), in the middle of (1) and after (2) every changing operation
    pub fn crash_check(&mut self, phase: u8) -> bool {
        if let Some(c) = &self.crash {
            if self.fs_mut_ops == c.fs_op && c.phase == phase {
                return true;
            }
        }
        false
    }

    pub fn holdings(&mut self) -> Body {
        let mut strays = vec![];
        if let Ok(b) = self.disk.lookup(&self.base) {
            let mut all = vec![];
            self.disk.tree(b, "", &mut all);
            strays = all.into_iter().map(|x| x.0.trim_start_matches('/').to_string()).filter(|n| !n.is_empty()).collect();
        }
        Body::Probe {
            fds: self.fds.values().filter(|e| e.dom == D).count() as u64,
            threads: self.threads.iter().filter(|t| t.dom == D && !t.exited).count() as u64,
            live: unsafe { crate::alloc::DAEMON_LIVE },
            strays,
        }
    }
    pub fn log_fs(&mut self, op: u32, path: &str, to: Option<&str>) {
        let seq = self.next_seq();
        self.fs_log.push(FsLog {
            seq,
            t: self.now,
            op: op_name(op).to_string(),
            path: path.to_string(),
            to: to.map(str::to_string),
        });
        for p in [Some(path), to].into_iter().flatten() {
            if self.is_outside(p, op) {
                self.escapes.push(format!("{} {}", op_name(op), crate::disk::canonical(p)));
            }
        }
        self.tr(|| format!("fs {} {path} {}", op_name(op), to.unwrap_or("")));
    }

    ///remembers what a restart would see now, whenever the list of databases was replaced
    pub fn snap_if_meta(&mut self, path: &str) {
        let c = crate::disk::canonical(path);
        if c != format!("{}/meta.sdb", self.base) {
            return;
        }
        let mut files = vec![];
        if let Ok(b) = self.disk.lookup(&self.base) {
            for (n, &i) in &self.disk.node(b).ents {
                if !self.disk.node(i).dir {
                    files.push((n.clone(), self.disk.node(i).data.clone()));
                }
            }
        }
        let seq = self.next_seq();
        let t = self.now;
        self.snaps.push(Snap { seq, t, files });
        self.stats.saves += 1;
    }
}

pub const OP_OPEN: u32 = 1;
pub const OP_CREATE: u32 = 2;
pub const OP_READ: u32 = 4;
pub const OP_WRITE: u32 = 8;
pub const OP_FSYNC: u32 = 16;
pub const OP_RENAME: u32 = 32;
pub const OP_UNLINK: u32 = 64;
pub const OP_MKDIR: u32 = 128;
pub const OP_FSYNCDIR: u32 = 256;
pub const OP_STAT: u32 = 512;
pub const OP_TRUNC: u32 = 1024;
pub const OP_LINK: u32 = 2048;
pub const OP_MUTATING: u32 =
    OP_CREATE | OP_WRITE | OP_FSYNC | OP_RENAME | OP_UNLINK | OP_MKDIR | OP_FSYNCDIR | OP_TRUNC | OP_LINK;

pub fn op_name(op: u32) -> &'static str {
    match op {
        OP_OPEN => "open",
        OP_CREATE => "create",
        OP_READ => "read",
        OP_WRITE => "write",
        OP_FSYNC => "fsync",
        OP_RENAME => "rename",
        OP_UNLINK => "unlink",
        OP_MKDIR => "mkdir",
        OP_FSYNCDIR => "fsyncdir",
        OP_STAT => "stat",
        OP_TRUNC => "truncate",
        OP_LINK => "link",
        _ => "?",
    }
}

pub unsafe fn wait_baton(b: &AtomicU32) {
    loop {
        if b.compare_exchange(1, 0, Ordering::Acquire, Ordering::Relaxed).is_ok() {
            return;
        }
        raw::futex_wait(b as *const AtomicU32 as *const u32, 0);
    }
}

///called by the allocator in the daemon's threads
pub unsafe fn alloc_point() {
    let g = KG::new();
    let kk = k();
    let p = kk.cfg.alloc_period;
    alloc::COUNTDOWN = if p == 0 || kk.steps >= kk.cfg.quiet_after { u64::MAX } else { 1 + kk.rng.below(2 * p) };
    kk.stats.alloc_points += 1;
    kk.point(3, 0);
    drop(g);
}

///a thread which must never run again
pub fn park_forever() -> ! {
    let w = AtomicU32::new(0);
    loop {
        unsafe { raw::futex_wait(&w as *const AtomicU32 as *const u32, 0) };
    }
}
