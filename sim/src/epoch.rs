//! One life of the daemon: from its start to its exit, kill or power loss, in a process of its own.
use crate::bytes::Bytes;
use crate::client;
use crate::disk::Disk;
use crate::kern::*;
use crate::mval::MVal;
use crate::plan::*;
use crate::raw;
use crate::result::*;
use crate::rng::Rng;
use crate::{alloc, sys};
use std::collections::BTreeMap;
use std::ffi::c_void;

pub const SHM: usize = 1 << 30;
const HEAD: usize = 4096;

///what the next life starts with
#[derive(Clone)]
pub struct World {
    pub disk: Disk,
    pub now: u64,
    pub wall_off: i64,
    pub rng: Rng,
}

pub struct Ctx {
    pub plan: Plan,
    pub idx: usize,
    pub recs: Vec<Rec>,
    pub started: bool,
    pub signal_t: u64,
    pub signal_seq: u64,
    pub stop: bool,
    pub liveness: Vec<String>,
    pub client_panics: Vec<String>,
    pub finished: bool,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();
static mut SHMP: *mut u8 = std::ptr::null_mut();
static mut BASE_LIVE: usize = 0;

#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}

pub const CH_STOP: u64 = CH_MISC + 8;
pub const CH_CLIENT: u64 = CH_MISC + 9;

pub unsafe fn set_shm(p: *mut u8) {
    SHMP = p;
}

// ------------------------------------------------------------------------------------------------ ends

unsafe fn status(s: u64) {
    core::ptr::write_volatile(SHMP.cast::<u64>(), s);
}
pub fn harness_crash(sig: i32) -> ! {
    unsafe {
        core::ptr::write_volatile(SHMP.cast::<u64>().add(2), sig as u64);
        status(4);
    }
    raw::exit_now(4)
}
pub fn cpu_hang(daemon: bool) -> ! {
    unsafe { status(if daemon { 2 } else { 3 }) };
    raw::exit_now(4)
}
pub fn finish_crash(power: bool) -> ! {
    finish(if power { Outcome::PowerLost } else { Outcome::Killed })
}

struct W {
    off: usize,
}
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if HEAD + self.off + b.len() > SHM {
            raw::write_err("simrun: result too large\n");
            raw::exit_now(3);
        }
        unsafe { core::ptr::copy_nonoverlapping(b.as_ptr(), SHMP.add(HEAD + self.off), b.len()) };
        self.off += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

///decodes what is on the disk the way a start would, with the library of the tree under test
pub fn view_of(files: &BTreeMap<&str, &[u8]>, cache: &mut BTreeMap<Vec<u8>, Option<Content>>) -> BTreeMap<String, Option<Content>> {
    let mut out = BTreeMap::new();
    let Some(meta) = files.get("meta.sdb") else { return out };
    let mut decode = |b: &[u8]| -> Option<Content> {
        if let Some(x) = cache.get(b) {
            return x.clone();
        }
        let r = std::panic::catch_unwind(|| sourisdb::store::Store::deser(b).ok())
            .ok()
            .flatten()
            .map(|s| s.iter().map(|(k, v)| (k.clone(), MVal::of(v))).collect::<Content>());
        cache.insert(b.to_vec(), r.clone());
        r
    };
    let Some(m) = decode(meta) else { return out };
    if let Some(MVal::Arr(a)) = m.get("existing_dbs") {
        for n in a {
            if let MVal::Str(n) = n {
                let c = files.get(format!("{n}.sdb").as_str()).map(|b| decode(b));
                if let Some(c) = c {
                    out.insert(n.clone(), c);
                }
            }
        }
    }
    out
}

pub fn finish(o: Outcome) -> ! {
    unsafe {
        IN_KERN += 1_000_000;
        alloc::LIMITED = false;
        alloc::COUNTDOWN = u64::MAX;
    }
    let kk = k();
    let c = ctx();
    let end_seq = kk.next_seq();
    kk.tr(|| format!("end: {o:?}"));
    let death_t = if kk.dead { kk.death_t } else { kk.now };
    // it may wait for connections while it reads its data: it has not started before it answers
    if matches!(o, Outcome::Exited(x) if x != 0) && c.signal_seq == 0 && !c.recs.iter().any(|r| matches!(r.out, Out::Resp(s, _) if s > 0)) {
        c.started = false;
    }
    let mut rng = kk.rng.clone();
    let mut notes = vec![];
    if o == Outcome::PowerLost {
        notes = kk.disk.power_loss(&mut rng);
        let n = notes.join("; ");
        kk.tr(|| n);
    }
    kk.disk.gc();
    let fs_busy = kk.fs_busy_all();
    let mut views = vec![];
    let mut cache = BTreeMap::new();
    // the last ones are what matters
    let skip = kk.snaps.len().saturating_sub(60);
    for s in kk.snaps.iter().skip(skip) {
        let files: BTreeMap<&str, &[u8]> = s.files.iter().map(|(n, b)| (n.as_str(), b.0.as_slice())).collect();
        views.push(View { seq: s.seq, t: s.t, dbs: view_of(&files, &mut cache) });
    }
    let out = String::from_utf8_lossy(&kk.out).into_owned();
    let panics: Vec<String> = out
        .lines()
        .zip(out.lines().skip(1).map(Some).chain(std::iter::once(None)))
        .filter(|(l, _)| l.contains("panicked"))
        .map(|(l, n)| format!("{l} {}", n.unwrap_or("")))
        .collect();
    let attempted = c.signal_seq > 0
        && kk.fs_log.iter().any(|l| l.seq > c.signal_seq && l.op != "unlink")
        || kk.disk_attempt_after > 0;
    kk.stats.allocs_refused = unsafe { alloc::ALLOC_FAILED };
    kk.stats.peak_live = alloc::peak().saturating_sub(unsafe { BASE_LIVE }) as u64;
    let stall_total = kk.stall_total;
    let r = EpochResult {
        outcome: o,
        started: c.started,
        recs: std::mem::take(&mut c.recs),
        disk: std::mem::take(&mut kk.disk),
        start: kk.t0,
        now: kk.now,
        end_seq,
        wall_off: kk.wall_off,
        rng,
        steps: kk.steps,
        switches: kk.switches,
        hash: kk.hash,
        stats: kk.stats.clone(),
        panics,
        output: tail(&out, 6000),
        escapes: kk.escapes.clone(),
        unsupported: kk.unsupported.clone(),
        views,
        fs_busy,
        fs_log: vec![],
        fault_hits: kk.fault_hits.clone(),
        fault_last: kk.fault_last.clone(),
        last_fault: kk.last_fault,
        last_delay: kk.last_delay,
        death_t,
        signal_t: c.signal_t,
        signal_seq: c.signal_seq,
        save_after_signal: c.signal_seq > 0 && kk.snaps.iter().any(|s| s.seq > c.signal_seq),
        liveness: c.liveness.clone(),
        power_notes: notes,
        trace: kk.trace.clone(),
        client_panics: c.client_panics.clone(),
        attempted_save_after_signal: attempted,
        crash_seq: end_seq,
        last_disk_fault: kk.last_disk_fault,
        stall_total,
        died_of: kk.death.clone(),
        changes: if c.started { vec![] } else { kk.fs_log.iter().filter(|l| l.op != "mkdir").map(|l| format!("{} {}", l.op, l.path)).collect() },
    };
    let mut w = W { off: 0 };
    if ciborium::into_writer(&r, &mut w).is_err() {
        raw::write_err("simrun: cannot encode the result\n");
        raw::exit_now(3);
    }
    unsafe {
        core::ptr::write_volatile(SHMP.cast::<u64>().add(1), w.off as u64);
        status(1);
    }
    raw::exit_now(0)
}

fn tail(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = s.len() - n;
    while !s.is_char_boundary(i) {
        i += 1;
    }
    s[i..].to_string()
}

// ------------------------------------------------------------------------------------------------ the supervising side

pub struct Opts {
    pub trace: bool,
    pub limit_s: f64,
}

///runs one life in a child process
pub fn run_epoch(plan: &Plan, idx: usize, w: &World, o: &Opts) -> EpochResult {
    unsafe {
        let mut fds = [0i32; 2];
        libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC);
        status(0);
        let pid = libc::fork();
        if pid == 0 {
            raw::sc6(libc::SYS_close, fds[0] as usize, 0, 0, 0, 0, 0);
            child(plan, idx, w, o);
        }
        libc::close(fds[1]);
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let end = raw::real_now() + o.limit_s;
        let mut late = false;
        loop {
            let left = end - raw::real_now();
            if left <= 0.0 {
                late = true;
                break;
            }
            let r = libc::poll(&mut p, 1, (left * 1000.0) as i32 + 1);
            if r > 0 {
                break;
            }
        }
        if late {
            libc::kill(pid, libc::SIGKILL);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let s = core::ptr::read_volatile(SHMP.cast::<u64>());
        let bad = |o: Outcome| empty_result(w, o);
        match s {
            1 => {
                let n = core::ptr::read_volatile(SHMP.cast::<u64>().add(1)) as usize;
                let b = std::slice::from_raw_parts(SHMP.add(HEAD), n);
                match ciborium::de::from_reader_with_recursion_limit::<EpochResult, _>(b, 100_000) {
                    Ok(r) => r,
                    Err(e) => bad(Outcome::Harness(format!("result: {e}"))),
                }
            }
            2 => bad(Outcome::CpuHang("daemon".into())),
            3 => bad(Outcome::Harness("the harness does not come to an end".into())),
            4 => bad(Outcome::Harness(format!("signal {}", core::ptr::read_volatile(SHMP.cast::<u64>().add(2))))),
            _ if late => bad(Outcome::Harness("wall clock limit".into())),
            _ => bad(Outcome::Harness(format!("child ended with {st:x}"))),
        }
    }
}

fn empty_result(w: &World, o: Outcome) -> EpochResult {
    EpochResult {
        outcome: o,
        started: false,
        recs: vec![],
        disk: w.disk.clone(),
        start: w.now,
        now: w.now,
        end_seq: 0,
        wall_off: w.wall_off,
        rng: w.rng.clone(),
        steps: 0,
        switches: 0,
        hash: 0,
        stats: Stats::default(),
        panics: vec![],
        output: String::new(),
        escapes: vec![],
        unsupported: vec![],
        views: vec![],
        fs_busy: vec![],
        fs_log: vec![],
        fault_hits: vec![],
        fault_last: vec![],
        last_fault: 0,
        last_delay: 0,
        death_t: 0,
        signal_t: 0,
        signal_seq: 0,
        save_after_signal: false,
        liveness: vec![],
        power_notes: vec![],
        trace: vec![],
        client_panics: vec![],
        attempted_save_after_signal: false,
        crash_seq: 0,
        last_disk_fault: 0,
        stall_total: 0,
        died_of: None,
        changes: vec![],
    }
}

unsafe fn child(plan: &Plan, idx: usize, w: &World, o: &Opts) -> ! {
    alloc::restart();
    sys::alt_stack();
    // the environment of the daemon (and of everything else in here)
    let keys: Vec<String> = std::env::vars().map(|x| x.0).collect();
    for kx in keys {
        if !kx.starts_with("SIM_") {
            std::env::remove_var(kx);
        }
    }
    match plan.base {
        BaseKind::Env => std::env::set_var("BASE_LOCATION", "/mnt/data"),
        BaseKind::EnvSlash => std::env::set_var("BASE_LOCATION", "/mnt/data/"),
        BaseKind::EnvDeep => std::env::set_var("BASE_LOCATION", "/mnt/a/b/c"),
        BaseKind::Root | BaseKind::Home => {}
    }
    sys::EUID = if plan.base == BaseKind::Home { 1000 } else { 0 };
    std::env::set_var("HOME", if plan.base == BaseKind::Home { "/home/u" } else { "/root" });
    std::env::set_var("TOKIO_WORKER_THREADS", plan.workers.to_string());
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    if let Some(l) = &plan.log {
        std::env::set_var("RUST_LOG", l);
    }
    sys::CPUS = plan.cpus as usize;
    let e = &plan.epochs[idx];
    let mut kc = plan.k.clone();
    if e.clients.iter().all(|c| c.steps.is_empty()) && e.faults.is_empty() {
        kc.alloc_period *= 4;
    }
    let period = kc.alloc_period;
    let mut kn = Box::new(Kern::new(kc, w.rng.clone(), w.disk.clone(), w.now, plan.base.path().to_string(), e.faults.clone()));
    kn.wall_off = w.wall_off;
    kn.trace_on = o.trace;
    let (kill, power) = (matches!(e.end, End::Kill { .. }), matches!(e.end, End::Power { .. }));
    if kill || power {
        let mut c = CrashTrig { step: u64::MAX, fs_op: 0, phase: 9, power };
        match e.end.when() {
            When::Step(n) => c.step = *n,
            When::FsOp(n, ph) => {
                c.fs_op = *n;
                c.phase = *ph;
            }
            _ => {}
        }
        kn.crash = Some(c);
    }
    CTX = Box::into_raw(Box::new(Ctx {
        plan: plan.clone(),
        idx,
        recs: vec![],
        started: false,
        signal_t: 0,
        signal_seq: 0,
        stop: false,
        liveness: vec![],
        client_panics: vec![],
        finished: false,
    }));
    sys::install_handlers();
    KP = Box::into_raw(kn);
    BASE_LIVE = alloc::live();
    alloc::reset_peak();
    alloc::LIMITED = true;
    alloc::DAEMON_LIVE = 0;
    alloc::TRACK = plan.epochs[idx].clients.iter().any(|c| c.steps.iter().any(|s| s.op == Op::Probe));
    alloc::COUNTDOWN = if period > 0 { 1 + period } else { u64::MAX };
    sys::start_first(orchestrate, std::ptr::null_mut());
    park_forever()
}

// ------------------------------------------------------------------------------------------------ inside

extern "C" fn orchestrate(_: *mut c_void) -> *mut c_void {
    let r = std::panic::catch_unwind(orchestrate_inner);
    let m = match r {
        Ok(()) => "the orchestrator returned".to_string(),
        Err(e) => client::panic_text(&*e),
    };
    finish(Outcome::Harness(m))
}

fn wait(chans: &[u64], dl: Option<u64>) -> Wake {
    let _g = KG::new();
    k().block(chans, dl)
}
fn sleep_until(t: u64) {
    // ends early if the daemon dies
    while !k().dead && k().now < t {
        wait(&[CH_DEAD], Some(t));
    }
}

///the deliverer of a signal borrows the identity of the daemon
fn deliver(sig: i32) -> bool {
    let Some(&h) = k().sigs.get(&sig) else { return false };
    if h == libc::SIG_IGN {
        return true;
    }
    if h == libc::SIG_DFL {
        return false;
    }
    let me = k().cur;
    k().threads[me].dom = D;
    unsafe {
        let mut info: libc::siginfo_t = std::mem::zeroed();
        info.si_signo = sig;
        let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut c_void) = std::mem::transmute(h);
        f(sig, &mut info, std::ptr::null_mut());
    }
    if k().dead {
        // died meanwhile
        let me = k().cur;
        k().threads[me].st = St::Runnable;
    }
    k().threads[me].dom = H;
    true
}

fn daemon_over() -> ! {
    let kk = k();
    let o = match (&kk.exit_code, &kk.death) {
        (Some(c), _) => Outcome::Exited(*c),
        (None, d) => Outcome::Died(d.clone().unwrap_or_default()),
    };
    finish(o)
}

fn orchestrate_inner() {
    let e = ctx().plan.epochs[ctx().idx].clone();
    k().spawn_dom = Some(D);
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(|| {
            let r = std::panic::catch_unwind(sourisd::sim_main);
            sys::daemon_main_done(if r.is_ok() { 0 } else { 101 })
        })
        .expect("daemon thread");
    let limit = k().now + e.start_limit;
    while !k().listening && !k().dead && k().now < limit {
        wait(&[CH_LISTEN, CH_DEAD], Some(limit));
    }
    if k().dead {
        daemon_over();
    }
    let crash = !matches!(e.end, End::Graceful { .. });
    if !k().listening {
        ctx().liveness.push(format!("not listening after {} s", e.start_limit / 1_000_000_000));
        finish(Outcome::TimeBudget);
    }
    ctx().started = true;
    if e.crash_in_start && crash {
        k().sleep_g(50_000_000);
        finish_crash(matches!(e.end, End::Power { .. }));
    }
    if e.audit {
        client::audit();
    }
    if k().dead {
        daemon_over();
    }
    let n = e.clients.len();
    k().clients_left = n as u64;
    for i in 0..n {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || client::run(i))
            .expect("client thread");
    }
    // the end
    let clients_done = || k().clients_left == client::lingering();
    match e.end.when() {
        When::Done(d) => {
            while !k().dead && !clients_done() {
                wait(&[CH_CLIENT, CH_DEAD], None);
            }
            sleep_until(k().now + d);
        }
        When::At(t) => sleep_until(k().t0 + t),
        When::Acks(a, d) => {
            while !k().dead && !clients_done() && k().acks < *a {
                wait(&[CH_CLIENT, CH_DEAD, CH_ACK], None);
            }
            sleep_until(k().now + d);
        }
        When::Step(_) | When::FsOp(..) => {
            if !crash {
                if let When::FsOp(n, _) = e.end.when() {
                    let dl = k().now + 40_000_000_000;
                    while !k().dead && k().now < dl && k().fs_mut_ops < *n {
                        wait(&[CH_FSOP, CH_DEAD], Some(dl));
                    }
                }
            } else {
                while !k().dead && !clients_done() {
                    wait(&[CH_CLIENT, CH_DEAD], None);
                }
                sleep_until(k().now + 25_000_000_000);
            }
        }
    }
    if k().dead {
        settle();
        daemon_over();
    }
    match &e.end {
        End::Kill { .. } => finish_crash(false),
        End::Power { .. } => finish_crash(true),
        End::Graceful { sig, .. } => {
            let dl = k().now + 5_000_000_000;
            // the handler is registered a moment before a signal is noticed: one in between would be lost
            while !k().sig_ready(*sig) && !k().dead && k().now < dl {
                let t = k().now + 10_000_000;
                wait(&[CH_DEAD], Some(t));
            }
            if k().dead {
                settle();
                daemon_over();
            }
            ctx().signal_t = k().now;
            ctx().signal_seq = k().next_seq();
            k().tr(|| format!("signal {sig}"));
            if !deliver(*sig) {
                finish(Outcome::Died(format!("signal {sig} (no handler)")));
            }
            // requests in flight
            let dl = k().now + 200_000_000_000;
            while !k().dead && !clients_done() && k().now < dl {
                wait(&[CH_CLIENT, CH_DEAD], Some(dl));
            }
            let calm = k().now.max(k().last_fault);
            patience(calm);
            if !k().dead && client::lingering_half() == 0 {
                ctx().liveness.push(format!(
                    "still running {} s after the signal, all clients are idle or gone",
                    (k().now - ctx().signal_t) / 1_000_000_000
                ));
                finish(Outcome::TimeBudget);
            }
            ctx().stop = true;
            k().notify(CH_STOP);
            patience(k().now);
            if !k().dead {
                ctx().liveness.push(format!(
                    "still running {} s after the signal, all clients are gone",
                    (k().now - ctx().signal_t) / 1_000_000_000
                ));
                finish(Outcome::TimeBudget);
            }
            settle();
            daemon_over();
        }
    }
}

///waits for the daemon to end: 40 s beside what slow disks and stalled threads cost
fn patience(from: u64) {
    let stalls = k().stall_total;
    while !k().dead {
        let lost = k().lost_since(from) + (k().stall_total - stalls);
        let dl = from + 40_000_000_000 + lost;
        if k().now >= dl || k().now > from + 2_000_000_000_000 {
            break;
        }
        wait(&[CH_DEAD], Some(dl));
    }
}

///lets the clients see what was on its way to them
fn settle() {
    ctx().stop = true;
    k().notify(CH_STOP);
    let dl = k().now + 5_000_000_000;
    while k().clients_left > 0 && k().now < dl {
        wait(&[CH_CLIENT], Some(dl));
    }
}

pub fn encode_bytes(b: &[u8]) -> Bytes {
    Bytes(b.to_vec())
}
