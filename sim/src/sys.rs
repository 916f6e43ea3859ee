//! The C library as the simulated threads see it. Everything else passes through.
#![allow(invalid_runtime_symbol_definitions, clippy::missing_safety_doc, non_camel_case_types)]
use crate::disk;
use crate::kern::*;
use crate::raw;
use core::ffi::{c_char, c_int, c_long, c_void};
use libc::{mode_t, off64_t, size_t, sockaddr, socklen_t, ssize_t};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering};

#[inline]
fn sim() -> bool {
    is_sim() && unsafe { IN_KERN == 0 }
}
#[inline]
fn sim_d() -> bool {
    sim() && k().dom() == D
}
#[inline]
unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
#[inline]
unsafe fn ret(r: Result<isize, i32>) -> isize {
    match r {
        Ok(x) => x,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn real(cache: &AtomicUsize, name: &'static [u8]) -> usize {
    let p = cache.load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr().cast()) as usize;
    if p == 0 {
        raw::write_err("simrun: missing symbol\n");
        raw::exit_now(3);
    }
    cache.store(p, Ordering::Relaxed);
    p
}
macro_rules! next {
    ($name:literal, $t:ty) => {{
        static C: AtomicUsize = AtomicUsize::new(0);
        std::mem::transmute::<usize, $t>(real(&C, concat!($name, "\0").as_bytes()))
    }};
}
unsafe fn cstr(p: *const c_char) -> String {
    // names are ASCII or arbitrary bytes: keep them apart
    let b = std::ffi::CStr::from_ptr(p).to_bytes();
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => b.iter().map(|&x| x as char).collect(),
    }
}

// ------------------------------------------------------------------------------------------------ threads

const STACKS: usize = 0x5000_0000_0000;
static NEXT_STACK: AtomicUsize = AtomicUsize::new(STACKS);
pub static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut KEY_MADE: bool = false;

extern "C" {
    fn pthread_attr_setstack(a: *mut libc::pthread_attr_t, p: *mut c_void, n: size_t) -> c_int;
}

struct Start {
    tid: usize,
    ///the thread may not look at anything else before it is its turn
    baton: *const std::sync::atomic::AtomicU32,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
}

unsafe extern "C" fn on_thread_end(v: *mut c_void) {
    let n = v as usize;
    if n < 3 {
        // let the destructors of everybody else run first
        libc::pthread_setspecific(EXIT_KEY, (n + 1) as *const c_void);
        return;
    }
    if !is_sim() {
        return;
    }
    let g = KG::new();
    k().thread_exit();
    // somebody else runs now
    std::mem::forget(g);
    TID.with(|t| t.set(NONE));
}

pub unsafe fn alt_stack() {
    const N: usize = 256 << 10;
    let p = raw::sc6(libc::SYS_mmap, 0, N, 3, (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS) as usize, usize::MAX, 0);
    let st = libc::stack_t { ss_sp: p as *mut c_void, ss_flags: 0, ss_size: N };
    raw::sc6(libc::SYS_sigaltstack, &st as *const _ as usize, 0, 0, 0, 0, 0);
}

extern "C" fn trampoline(a: *mut c_void) -> *mut c_void {
    unsafe {
        let s = &*(a as *const Start);
        alt_stack();
        wait_baton(&*s.baton);
        TID.with(|t| t.set(s.tid));
        libc::pthread_setspecific(EXIT_KEY, 1 as *const c_void);
        (s.f)(s.arg)
    }
}

///creates a real thread for a simulated one
unsafe fn spawn_real(tid: usize, size: usize, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> Result<u64, i32> {
    if !KEY_MADE {
        KEY_MADE = true;
        libc::pthread_key_create(core::ptr::addr_of_mut!(EXIT_KEY), Some(on_thread_end));
    }
    const GUARD: usize = 1 << 20;
    let size = (size.max(256 << 10) + 0xffff) & !0xffff;
    let at = NEXT_STACK.fetch_add(size + GUARD, Ordering::Relaxed) + GUARD;
    let p = raw::sc6(
        libc::SYS_mmap,
        at,
        size,
        3,
        (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE | libc::MAP_STACK) as usize,
        usize::MAX,
        0,
    );
    if p as usize != at {
        return Err(libc::EAGAIN);
    }
    let s = Box::into_raw(Box::new(Start { tid, baton: &*k().threads[tid].baton, f, arg }));
    let mut attr: libc::pthread_attr_t = core::mem::zeroed();
    libc::pthread_attr_init(&mut attr);
    pthread_attr_setstack(&mut attr, at as *mut c_void, size);
    libc::pthread_attr_setdetachstate(&mut attr, libc::PTHREAD_CREATE_DETACHED);
    let mut t: libc::pthread_t = 0;
    let create = next!(
        "pthread_create",
        unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int
    );
    let r = create(&mut t, &attr, trampoline, s.cast());
    libc::pthread_attr_destroy(&mut attr);
    if r == 0 {
        Ok(t)
    } else {
        Err(r)
    }
}

///the first thread of the simulation: runs at once
pub unsafe fn start_first(f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) {
    let kk = k();
    let tid = kk.add_thread(H);
    kk.cur = tid;
    kk.threads[tid].baton.store(1, Ordering::Release);
    match spawn_real(tid, 8 << 20, f, arg) {
        Ok(p) => kk.threads[tid].pth = p,
        Err(_) => {
            raw::write_err("simrun: no first thread\n");
            raw::exit_now(3);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    if !sim() {
        let create = next!(
            "pthread_create",
            unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int
        );
        return create(out, attr, f, arg);
    }
    let _g = KG::new();
    let kk = k();
    kk.point(4, 0);
    let mut size: size_t = 2 << 20;
    if !attr.is_null() {
        libc::pthread_attr_getstacksize(attr, &mut size);
    }
    let dom = kk.spawn_dom.take().unwrap_or_else(|| kk.dom());
    let tid = kk.add_thread(dom);
    kk.stats.threads += 1;
    match spawn_real(tid, size, f, arg) {
        Ok(p) => {
            kk.threads[tid].pth = p;
            *out = p;
            kk.tr(|| format!("creates thread {tid}"));
            kk.point(5, 0);
            0
        }
        Err(e) => {
            kk.threads[tid].st = St::Done;
            e
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if !sim() {
        return next!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int)(t, r);
    }
    let _g = KG::new();
    let kk = k();
    kk.point(6, 0);
    let Some(i) = kk.threads.iter().position(|x| x.pth == t) else { return libc::ESRCH };
    while !kk.threads[i].exited {
        kk.block(&[CH_JOIN + i as u64], None);
    }
    if !r.is_null() {
        *r = core::ptr::null_mut();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> c_int {
    if !is_sim() {
        return next!("pthread_detach", unsafe extern "C" fn(libc::pthread_t) -> c_int)(t);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !sim() {
        raw::sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        return 0;
    }
    let _g = KG::new();
    k().point(7, 0);
    k().yield_now();
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if !is_sim() {
        let r = raw::sc(libc::SYS_sched_getaffinity, pid as usize, size, set as usize, 0, 0, 0);
        return if r < 0 { -1 } else { 0 };
    }
    core::ptr::write_bytes(set.cast::<u8>(), 0, size);
    for i in 0..CPUS {
        libc::CPU_SET(i, &mut *set);
    }
    0
}
pub static mut CPUS: usize = 2;
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: c_int) -> c_long {
    if is_sim() && (n == libc::_SC_NPROCESSORS_ONLN || n == libc::_SC_NPROCESSORS_CONF) {
        return CPUS as c_long;
    }
    next!("sysconf", unsafe extern "C" fn(c_int) -> c_long)(n)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if is_sim() {
        return 4242;
    }
    raw::sc6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> libc::pid_t {
    if is_sim() {
        return 5000 + TID.with(|t| t.get()) as libc::pid_t;
    }
    raw::sc6(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}
pub static mut EUID: u32 = 0;
#[no_mangle]
pub unsafe extern "C" fn geteuid() -> libc::uid_t {
    if is_sim() {
        return EUID;
    }
    raw::sc6(libc::SYS_geteuid, 0, 0, 0, 0, 0, 0) as libc::uid_t
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> libc::uid_t {
    if is_sim() {
        return EUID;
    }
    raw::sc6(libc::SYS_getuid, 0, 0, 0, 0, 0, 0) as libc::uid_t
}

unsafe fn daemon_exits(code: i32) -> ! {
    let g = KG::new();
    let kk = k();
    kk.exit_code = Some(code);
    kk.kill_daemon("exit");
    std::mem::forget(g);
    kk.schedule();
    park_forever()
}
///the daemon's main function returned
pub fn daemon_main_done(code: i32) -> ! {
    unsafe { daemon_exits(code) }
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if sim_d() {
        daemon_exits(code);
    }
    next!("exit", unsafe extern "C" fn(c_int) -> !)(code)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if sim_d() {
        daemon_exits(code);
    }
    raw::exit_now(code)
}

// ------------------------------------------------------------------------------------------------ signals

#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, act: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if !sim() {
        return next!("sigaction", unsafe extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int)(sig, act, old);
    }
    let _g = KG::new();
    let kk = k();
    kk.point(8, sig as u64);
    if !old.is_null() {
        *old = core::mem::zeroed();
        (*old).sa_sigaction = kk.sigs.get(&sig).copied().unwrap_or(libc::SIG_DFL);
    }
    if !act.is_null() && kk.dom() == D {
        kk.tr(|| format!("handler for signal {sig}"));
        kk.sigs.insert(sig, (*act).sa_sigaction);
        let by = (kk.cur, kk.threads[kk.cur].wepoch, kk.now);
        kk.sig_by.insert(sig, by);
        kk.notify(CH_SIG);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sigaltstack(a: *const libc::stack_t, b: *mut libc::stack_t) -> c_int {
    if is_sim() {
        if !b.is_null() {
            *b = core::mem::zeroed();
            (*b).ss_flags = libc::SS_DISABLE;
        }
        return 0;
    }
    raw::sc(libc::SYS_sigaltstack, a as usize, b as usize, 0, 0, 0, 0) as c_int
}

unsafe extern "C" fn on_crash(sig: c_int, info: *mut libc::siginfo_t, _ctx: *mut c_void) {
    let tid = TID.with(|t| t.get());
    let addr = (*info).si_addr() as usize;
    if tid == NONE || IN_KERN != 0 || KP.is_null() || k().dom() != D {
        raw::write_err(&format!("simrun: signal {sig} in the harness (thread {tid}, in kernel {}, address {addr:x})\n", IN_KERN));
        crate::epoch::harness_crash(sig);
    }
    let g = KG::new();
    let kk = k();
    let overflow = sig == libc::SIGSEGV && (STACKS..STACKS + (1 << 40)).contains(&addr);
    let what = if overflow { "SIGSEGV (stack overflow)".to_string() } else { format!("signal {sig}") };
    kk.kill_daemon(&what);
    std::mem::forget(g);
    kk.schedule();
    park_forever();
}
unsafe extern "C" fn on_prof(_sig: c_int, _i: *mut libc::siginfo_t, _c: *mut c_void) {
    static mut LAST: u64 = u64::MAX;
    static mut SAME: u32 = 0;
    if KP.is_null() {
        return;
    }
    if k().steps == LAST {
        SAME += 1;
        if SAME >= 12 {
            crate::epoch::cpu_hang(k().cur < k().threads.len() && k().dom() == D && IN_KERN == 0);
        }
    } else {
        LAST = k().steps;
        SAME = 0;
    }
}
///crashes of the simulated daemon and endless loops
pub unsafe fn install_handlers() {
    let sa = next!("sigaction", unsafe extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int);
    let mut a: libc::sigaction = core::mem::zeroed();
    a.sa_sigaction = on_crash as *const () as usize;
    a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGTRAP] {
        sa(s, &a, core::ptr::null_mut());
    }
    a.sa_sigaction = on_prof as *const () as usize;
    a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_RESTART;
    sa(libc::SIGPROF, &a, core::ptr::null_mut());
    let iv = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 1, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: 1, tv_usec: 0 },
    };
    raw::sc6(libc::SYS_setitimer, 2, &iv as *const _ as usize, 0, 0, 0, 0);
}

// ------------------------------------------------------------------------------------------------ time and randomness

unsafe fn ts_ns(t: *const libc::timespec) -> u64 {
    ((*t).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec.max(0) as u64)
}
fn wall(kk: &Kern) -> u64 {
    (kk.now as i64 + kk.wall_off) as u64
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !is_sim() {
        return raw::sc(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0) as c_int;
    }
    let kk = k();
    kk.now += 20;
    let t = match id {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => wall(kk),
        _ => kk.now,
    };
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if !is_sim() {
        return raw::sc(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0) as c_int;
    }
    let t = wall(k());
    (*tv).tv_sec = (t / 1_000_000_000) as i64;
    (*tv).tv_usec = (t % 1_000_000_000 / 1000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = core::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if !sim() {
        return raw::sc(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    k().sleep(ts_ns(a));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: libc::clockid_t, flags: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if !sim() {
        return -(raw::sc6(libc::SYS_clock_nanosleep, c as usize, flags as usize, a as usize, b as usize, 0, 0) as c_int);
    }
    let _g = KG::new();
    let t = ts_ns(a);
    if flags & libc::TIMER_ABSTIME != 0 {
        let now = if c == libc::CLOCK_REALTIME { wall(k()) } else { k().now };
        k().sleep(t.saturating_sub(now));
    } else {
        k().sleep(t);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if !is_sim() {
        return raw::sc(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0);
    }
    let b = std::slice::from_raw_parts_mut(p.cast::<u8>(), n);
    for c in b.chunks_mut(8) {
        let v = k().rng.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: size_t) -> c_int {
    if getrandom(p, n, 0) == n as ssize_t {
        0
    } else {
        -1
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !sim() {
        return raw::sc(n, a, b, c, d, e, f) as c_long;
    }
    match n {
        libc::SYS_futex => {
            let _g = KG::new();
            let op = b as i32;
            let cmd = op & 0x7f;
            let kk = k();
            match cmd {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let bits = if cmd == libc::FUTEX_WAIT_BITSET { f as u32 } else { u32::MAX };
                    let dl = (d != 0).then(|| {
                        let t = ts_ns(d as *const libc::timespec);
                        if cmd == libc::FUTEX_WAIT {
                            kk.now.saturating_add(t)
                        } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                            kk.now.saturating_add(t.saturating_sub(wall(kk)))
                        } else {
                            t
                        }
                    });
                    match kk.futex_wait(a, c as u32, dl, bits) {
                        0 => 0,
                        e => {
                            set_errno(e);
                            -1
                        }
                    }
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    let bits = if cmd == libc::FUTEX_WAKE_BITSET { f as u32 } else { u32::MAX };
                    kk.futex_wake(a, c as u32, bits) as c_long
                }
                _ => {
                    kk.unsupported.push(format!("futex {op}"));
                    set_errno(libc::ENOSYS);
                    -1
                }
            }
        }
        libc::SYS_getrandom => getrandom(a as *mut c_void, b, c as u32) as c_long,
        libc::SYS_gettid => c_long::from(gettid()),
        libc::SYS_getpid => c_long::from(getpid()),
        libc::SYS_sched_yield => c_long::from(sched_yield()),
        libc::SYS_clock_gettime => c_long::from(clock_gettime(a as i32, b as *mut libc::timespec)),
        libc::SYS_statx => c_long::from(statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut libc::statx)),
        libc::SYS_fsync => c_long::from(fsync(a as i32)),
        libc::SYS_fdatasync => c_long::from(fdatasync(a as i32)),
        libc::SYS_renameat2 => renameat2(a as i32, b as *const c_char, c as i32, d as *const c_char, e as u32) as c_long,
        libc::SYS_copy_file_range | libc::SYS_membarrier | libc::SYS_rseq | libc::SYS_close_range | libc::SYS_pidfd_open => {
            set_errno(libc::ENOSYS);
            -1
        }
        libc::SYS_mmap | libc::SYS_munmap | libc::SYS_madvise | libc::SYS_mprotect => raw::sc(n, a, b, c, d, e, f) as c_long,
        _ => {
            let _g = KG::new();
            k().unsupported.push(format!("syscall {n}"));
            set_errno(libc::ENOSYS);
            -1
        }
    }
}

// ------------------------------------------------------------------------------------------------ descriptors

fn mine(fd: c_int) -> bool {
    fd >= FD_BASE
}
///the command line client's thread
fn at_terminal() -> bool {
    is_sim() && unsafe { IN_KERN == 0 } && crate::mouse::tid() != NONE && k().cur == crate::mouse::tid()
}
///console of the daemon
unsafe fn console(fd: c_int, b: &[u8]) -> bool {
    if !(1..=2).contains(&fd) {
        return false;
    }
    if at_terminal() {
        let _g = KG::new();
        crate::mouse::shown(fd, b);
        return true;
    }
    let kk = k();
    if kk.dom() == D {
        let _g = KG::new();
        if kk.out.len() < 1 << 20 {
            kk.out.extend_from_slice(b);
        }
        if kk.trace_on {
            let s = String::from_utf8_lossy(b).trim_end().to_string();
            kk.tr(|| format!("prints {s}"));
        }
    }
    true
}

unsafe fn iovs<'a>(v: *const libc::iovec, n: c_int) -> &'a [libc::iovec] {
    std::slice::from_raw_parts(v, n.max(0) as usize)
}

fn deadline(kk: &Kern, tmo: u64) -> Option<u64> {
    (tmo != 0).then(|| kk.now + tmo)
}

fn conn_recv(o: usize, buf: &mut [u8], peek: bool, dontwait: bool) -> Result<usize, i32> {
    let kk = k();
    let mut dl: Option<Option<u64>> = None;
    loop {
        let nb = kk.obj(o).nonblock || dontwait;
        let (conn, side, tmo) = match &mut kk.obj(o).kind {
            Kind::Conn { conn, side, connected, err, rcvtimeo, .. } => {
                if *err != 0 {
                    let e = *err;
                    *err = 0;
                    return Err(e);
                }
                if !*connected {
                    return Err(libc::ENOTCONN);
                }
                (*conn, *side, *rcvtimeo)
            }
            _ => return Err(libc::ENOTCONN),
        };
        let c = kk.conns[conn].as_mut().unwrap();
        let rx = &mut c.pipes[1 - side];
        if rx.rst || crate::mouse::out_of_reach() {
            return Err(libc::ECONNRESET);
        }
        if !rx.buf.is_empty() && !buf.is_empty() {
            let n = buf.len().min(rx.buf.len());
            if peek {
                for (i, x) in rx.buf.iter().take(n).enumerate() {
                    buf[i] = *x;
                }
                return Ok(n);
            }
            for (i, x) in rx.buf.drain(..n).enumerate() {
                buf[i] = x;
            }
            crate::mouse::came(&buf[..n]);
            if let Some(p) = c.side[1 - side] {
                kk.notify_obj(p);
            }
            return Ok(n);
        }
        if rx.fin || buf.is_empty() {
            return Ok(0);
        }
        if nb {
            return Err(libc::EAGAIN);
        }
        let d = *dl.get_or_insert_with(|| deadline(kk, tmo));
        if kk.block(&[CH_OBJ + o as u64], d) == Wake::Timeout {
            return Err(libc::EAGAIN);
        }
    }
}

fn conn_send(o: usize, buf: &[u8], dontwait: bool) -> Result<usize, i32> {
    let kk = k();
    let mut dl: Option<Option<u64>> = None;
    loop {
        let nb = kk.obj(o).nonblock || dontwait;
        let (conn, side, tmo) = match &mut kk.obj(o).kind {
            Kind::Conn { conn, side, connected, err, sndtimeo, .. } => {
                if *err != 0 {
                    let e = *err;
                    *err = 0;
                    return Err(e);
                }
                if !*connected {
                    return Err(libc::ENOTCONN);
                }
                (*conn, *side, *sndtimeo)
            }
            _ => return Err(libc::ENOTCONN),
        };
        let c = kk.conns[conn].as_mut().unwrap();
        if c.pipes[1 - side].rst || c.pipes[side].rst || crate::mouse::out_of_reach() {
            return Err(libc::ECONNRESET);
        }
        let (cap, tcp) = (c.cap, c.tcp);
        let tx = &mut c.pipes[side];
        if tx.fin_sent {
            return Err(libc::EPIPE);
        }
        let used = tx.in_flight + tx.buf.len();
        if used < cap {
            let mut n = buf.len().min(cap - used);
            if let Some((keep, fin)) = kk.cut(conn, side, n) {
                if keep > 0 {
                    kk.send_seg(conn, side, Seg::Data(buf[..keep].to_vec()));
                }
                kk.cut_off(conn, side, fin);
                return Ok(n);
            }
            let frag = kk.cfg.net.frag as usize;
            if tcp && frag > 0 {
                if n > 1 && kk.rng.chance(1, 6) {
                    n = 1 + kk.rng.us(n);
                }
                let mut off = 0;
                let mut pieces = 0;
                while off < n {
                    let mut s = if pieces < 24 { 1 + kk.rng.us(frag) } else { n };
                    s = s.min(n - off);
                    kk.send_seg(conn, side, Seg::Data(buf[off..off + s].to_vec()));
                    off += s;
                    pieces += 1;
                }
                kk.stats.fragments += pieces;
            } else {
                kk.send_seg(conn, side, Seg::Data(buf[..n].to_vec()));
            }
            return Ok(n);
        }
        if nb {
            return Err(libc::EAGAIN);
        }
        let d = *dl.get_or_insert_with(|| deadline(kk, tmo));
        if kk.block(&[CH_OBJ + o as u64], d) == Wake::Timeout {
            return Err(libc::EAGAIN);
        }
    }
}

fn event_read(o: usize, buf: &mut [u8]) -> Result<usize, i32> {
    if buf.len() < 8 {
        return Err(libc::EINVAL);
    }
    loop {
        let kk = k();
        let nb = kk.obj(o).nonblock;
        if let Kind::Event { count } = &mut kk.obj(o).kind {
            if *count > 0 {
                buf[..8].copy_from_slice(&count.to_ne_bytes());
                *count = 0;
                return Ok(8);
            }
        }
        if nb {
            return Err(libc::EAGAIN);
        }
        kk.block(&[CH_OBJ + o as u64], None);
    }
}

fn do_read(fd: c_int, buf: &mut [u8], at: Option<u64>) -> Result<isize, i32> {
    let kk = k();
    kk.point(20, fd as u64);
    let o = kk.fdobj(fd)?;
    let r = match &kk.obj(o).kind {
        Kind::Conn { .. } => conn_recv(o, buf, false, false)?,
        Kind::Event { .. } => event_read(o, buf)?,
        Kind::File { .. } => return file_read(o, buf, at).map(|x| x as isize),
        Kind::Dir { .. } => return Err(libc::EISDIR),
        _ => return Err(libc::EINVAL),
    };
    kk.mix(r as u64);
    Ok(r as isize)
}
fn do_write(fd: c_int, buf: &[u8], at: Option<u64>) -> Result<isize, i32> {
    let kk = k();
    kk.point(21, fd as u64);
    let o = kk.fdobj(fd)?;
    match &mut kk.obj(o).kind {
        Kind::Conn { .. } => conn_send(o, buf, false).map(|x| x as isize),
        Kind::Event { count } => {
            if buf.len() < 8 {
                return Err(libc::EINVAL);
            }
            *count = count.saturating_add(u64::from_ne_bytes(buf[..8].try_into().unwrap()));
            kk.notify_obj(o);
            Ok(8)
        }
        Kind::File { .. } => file_write(o, buf, at).map(|x| x as isize),
        _ => Err(libc::EINVAL),
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if !sim() || !mine(fd) {
        if sim_d() && fd == 0 {
            return 0;
        }
        if fd == 0 && at_terminal() {
            let _g = KG::new();
            return crate::mouse::take_keys(std::slice::from_raw_parts_mut(p.cast(), n)) as ssize_t;
        }
        return raw::sc(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0);
    }
    let _g = KG::new();
    ret(do_read(fd, std::slice::from_raw_parts_mut(p.cast(), n), None))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if !sim() || !mine(fd) {
        if is_sim() && IN_KERN == 0 && console(fd, std::slice::from_raw_parts(p.cast(), n)) {
            return n as ssize_t;
        }
        return raw::sc(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0);
    }
    let _g = KG::new();
    ret(do_write(fd, std::slice::from_raw_parts(p.cast(), n), None))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0);
    }
    let _g = KG::new();
    let iv = iovs(v, n);
    let total: usize = iv.iter().map(|x| x.iov_len).sum();
    let mut b = vec![0; total];
    match do_read(fd, &mut b, None) {
        Ok(r) => {
            let mut off = 0;
            for x in iv {
                let m = x.iov_len.min(r as usize - off);
                core::ptr::copy_nonoverlapping(b.as_ptr().add(off), x.iov_base.cast(), m);
                off += m;
            }
            r
        }
        Err(e) => ret(Err(e)),
    }
}
unsafe fn gather(v: *const libc::iovec, n: c_int) -> Vec<u8> {
    let mut b = vec![];
    for x in iovs(v, n) {
        if x.iov_len > 0 {
            b.extend_from_slice(std::slice::from_raw_parts(x.iov_base.cast::<u8>(), x.iov_len));
        }
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !sim() || !mine(fd) {
        if is_sim() && IN_KERN == 0 && (1..=2).contains(&fd) {
            let b = gather(v, n);
            console(fd, &b);
            return b.len() as ssize_t;
        }
        return raw::sc(libc::SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0);
    }
    let _g = KG::new();
    let b = gather(v, n);
    ret(do_write(fd, &b, None))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, p: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_pread64, fd as usize, p as usize, n, off as usize, 0, 0);
    }
    let _g = KG::new();
    ret(do_read(fd, std::slice::from_raw_parts_mut(p.cast(), n), Some(off as u64)))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_pwrite64, fd as usize, p as usize, n, off as usize, 0, 0);
    }
    let _g = KG::new();
    ret(do_write(fd, std::slice::from_raw_parts(p.cast(), n), Some(off as u64)))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !sim() || !mine(fd) {
        if is_sim() && IN_KERN == 0 && (0..=2).contains(&fd) {
            return 0;
        }
        return raw::sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(22, fd as u64);
    ret(kk.close(fd).map(|()| 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    let o = match kk.fdobj(fd) {
        Ok(o) => o,
        Err(e) => return ret(Err(e)) as c_int,
    };
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => kk.new_fd(o),
        libc::F_GETFD => libc::FD_CLOEXEC,
        libc::F_GETFL => libc::O_RDWR | if kk.obj(o).nonblock { libc::O_NONBLOCK } else { 0 },
        libc::F_SETFL => {
            kk.obj(o).nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            0
        }
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if !sim() || !mine(fd) {
        if sim_d() {
            set_errno(libc::ENOTTY);
            return -1;
        }
        if (0..=2).contains(&fd) && at_terminal() {
            if fd != 1 && req == libc::TIOCGWINSZ {
                *(arg as *mut libc::winsize) = libc::winsize { ws_row: 1000, ws_col: 10_000, ws_xpixel: 0, ws_ypixel: 0 };
                return 0;
            }
            set_errno(libc::ENOTTY);
            return -1;
        }
        return raw::sc(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    match kk.fdobj(fd) {
        Ok(o) => {
            if req == libc::FIONBIO {
                kk.obj(o).nonblock = *(arg as *const c_int) != 0;
            } else if req == libc::FIONREAD {
                let n = match &kk.obj(o).kind {
                    Kind::Conn { conn, side, .. } => {
                        let (c, s) = (*conn, *side);
                        kk.conns[c].as_ref().unwrap().pipes[1 - s].buf.len()
                    }
                    _ => 0,
                };
                *(arg as *mut c_int) = n as c_int;
            } else if matches!(kk.obj(o).kind, Kind::File { .. } | Kind::Dir { .. }) {
                set_errno(libc::ENOTTY);
                return -1;
            }
            0
        }
        Err(e) => ret(Err(e)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if (0..=2).contains(&fd) && (at_terminal() || sim_d()) {
        if fd != 1 && at_terminal() {
            return 1;
        }
        set_errno(libc::ENOTTY);
        return 0;
    }
    next!("isatty", unsafe extern "C" fn(c_int) -> c_int)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut libc::termios) -> c_int {
    if fd == 0 && at_terminal() {
        *t = core::mem::zeroed();
        return 0;
    }
    next!("tcgetattr", unsafe extern "C" fn(c_int, *mut libc::termios) -> c_int)(fd, t)
}
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, a: c_int, t: *const libc::termios) -> c_int {
    if fd == 0 && at_terminal() {
        return 0;
    }
    next!("tcsetattr", unsafe extern "C" fn(c_int, c_int, *const libc::termios) -> c_int)(fd, a, t)
}

// ------------------------------------------------------------------------------------------------ epoll, eventfd, poll

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(f: c_int) -> c_int {
    if !sim() {
        return raw::sc(libc::SYS_epoll_create1, f as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    let o = kk.new_obj(Kind::Epoll { watch: BTreeMap::new(), ready: VecDeque::new() }, false);
    kk.new_fd(o)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create(n: c_int) -> c_int {
    if !sim() {
        return raw::sc(libc::SYS_epoll_create, n as usize, 0, 0, 0, 0, 0) as c_int;
    }
    epoll_create1(0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if !sim() || !mine(ep) {
        return raw::sc(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(23, fd as u64);
    let r = (|| -> Result<isize, i32> {
        let e = kk.fdobj(ep)?;
        let o = kk.fdobj(fd)?;
        if matches!(kk.obj(o).kind, Kind::File { .. } | Kind::Dir { .. }) {
            return Err(libc::EPERM);
        }
        if op == libc::EPOLL_CTL_DEL {
            if let Kind::Epoll { watch, .. } = &mut kk.obj(e).kind {
                watch.remove(&fd).ok_or(libc::ENOENT)?;
                let still = watch.values().any(|w| w.obj == o);
                if !still {
                    kk.obj(o).watchers.retain(|&w| w != e);
                }
            }
            return Ok(0);
        }
        let (events, data) = ((*ev).events, (*ev).u64);
        let ready_now = kk.readiness(o);
        let interest = events | libc::EPOLLERR as u32 | libc::EPOLLHUP as u32;
        let mut fire = false;
        if let Kind::Epoll { watch, ready } = &mut kk.obj(e).kind {
            if op == libc::EPOLL_CTL_ADD && watch.contains_key(&fd) {
                return Err(libc::EEXIST);
            }
            if op == libc::EPOLL_CTL_MOD && !watch.contains_key(&fd) {
                return Err(libc::ENOENT);
            }
            let was = watch.get(&fd).is_some_and(|w| w.pending);
            let mut w = Watch { obj: o, events, data, pending: was };
            if ready_now & interest != 0 && !was {
                w.pending = true;
                ready.push_back(fd);
                fire = true;
            }
            watch.insert(fd, w);
        } else {
            return Err(libc::EINVAL);
        }
        let ws = &mut kk.obj(o).watchers;
        if !ws.contains(&e) {
            ws.push(e);
        }
        if fire {
            kk.notify(CH_OBJ + e as u64);
        }
        Ok(0)
    })();
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, tmo: c_int) -> c_int {
    if !sim() || !mine(ep) {
        return raw::sc(libc::SYS_epoll_wait, ep as usize, evs as usize, max as usize, tmo as usize, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(24, 0);
    let e = match kk.fdobj(ep) {
        Ok(e) => e,
        Err(x) => return ret(Err(x)) as c_int,
    };
    let dl = (tmo > 0).then(|| kk.now + tmo as u64 * 1_000_000);
    loop {
        let got = kk.epoll_collect(e, max as usize);
        if !got.is_empty() {
            for (i, (r, d)) in got.iter().enumerate() {
                *evs.add(i) = libc::epoll_event { events: *r, u64: *d };
            }
            kk.mix(got.len() as u64);
            return got.len() as c_int;
        }
        if tmo == 0 {
            return 0;
        }
        if kk.block(&[CH_OBJ + e as u64], dl) == Wake::Timeout {
            return 0;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, tmo: c_int, s: *const libc::sigset_t) -> c_int {
    if !sim() || !mine(ep) {
        return raw::sc(libc::SYS_epoll_pwait, ep as usize, evs as usize, max as usize, tmo as usize, s as usize, 8) as c_int;
    }
    epoll_wait(ep, evs, max, tmo)
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: u32, flags: c_int) -> c_int {
    if !sim() {
        return raw::sc(libc::SYS_eventfd2, init as usize, flags as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    let o = kk.new_obj(Kind::Event { count: u64::from(init) }, flags & libc::EFD_NONBLOCK != 0);
    kk.new_fd(o)
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: libc::nfds_t, tmo: c_int) -> c_int {
    let fds: &mut [libc::pollfd] = if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(p, n as usize) };
    if n == 1 && fds[0].fd == 0 && at_terminal() {
        if crate::mouse::hung() || !crate::mouse::typed_ahead() && tmo != 0 && !crate::mouse::think() {
            fds[0].revents = libc::POLLIN | libc::POLLHUP;
            return 1;
        }
        fds[0].revents = if crate::mouse::typed_ahead() { libc::POLLIN } else { 0 };
        return c_int::from(fds[0].revents != 0);
    }
    if !sim() || !(n == 0 || fds.iter().any(|f| mine(f.fd))) {
        return raw::sc(libc::SYS_poll, p as usize, n as usize, tmo as usize, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(25, 0);
    let dl = (tmo > 0).then(|| kk.now + tmo as u64 * 1_000_000);
    loop {
        let mut hit = 0;
        let mut chans = vec![];
        for f in fds.iter_mut() {
            f.revents = 0;
            if f.fd < 0 {
                continue;
            }
            match kk.fdobj(f.fd) {
                Ok(o) => {
                    let r = kk.readiness(o) & (f.events as u16 as u32 | (libc::POLLERR | libc::POLLHUP) as u16 as u32);
                    f.revents = r as i16;
                    chans.push(CH_OBJ + o as u64);
                }
                Err(_) => f.revents = libc::POLLNVAL,
            }
            if f.revents != 0 {
                hit += 1;
            }
        }
        if hit > 0 || tmo == 0 {
            return hit;
        }
        if kk.block(&chans, dl) == Wake::Timeout {
            return 0;
        }
    }
}

// ------------------------------------------------------------------------------------------------ sockets

unsafe fn fill_addr(p: *mut sockaddr, len: *mut socklen_t, port: u16) {
    if p.is_null() || len.is_null() {
        return;
    }
    let mut a: libc::sockaddr_in = core::mem::zeroed();
    a.sin_family = libc::AF_INET as u16;
    a.sin_port = port.to_be();
    a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    let n = (*len as usize).min(core::mem::size_of::<libc::sockaddr_in>());
    core::ptr::copy_nonoverlapping((&a as *const libc::sockaddr_in).cast::<u8>(), p.cast::<u8>(), n);
    *len = core::mem::size_of::<libc::sockaddr_in>() as u32;
}
unsafe fn port_of(p: *const sockaddr) -> Result<u16, i32> {
    match i32::from((*p).sa_family) {
        libc::AF_INET => Ok(u16::from_be((*p.cast::<libc::sockaddr_in>()).sin_port)),
        libc::AF_INET6 => Ok(u16::from_be((*p.cast::<libc::sockaddr_in6>()).sin6_port)),
        _ => Err(libc::EAFNOSUPPORT),
    }
}

#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if !sim() {
        return raw::sc(libc::SYS_socket, dom as usize, ty as usize, proto as usize, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(26, 0);
    if (dom != libc::AF_INET && dom != libc::AF_INET6) || ty & 0xf != libc::SOCK_STREAM {
        set_errno(libc::EAFNOSUPPORT);
        return -1;
    }
    let o = kk.new_obj(Kind::Sock { bound: 0 }, ty & libc::SOCK_NONBLOCK != 0);
    kk.new_fd(o)
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(dom: c_int, ty: c_int, proto: c_int, out: *mut c_int) -> c_int {
    if !sim() {
        return raw::sc(libc::SYS_socketpair, dom as usize, ty as usize, proto as usize, out as usize, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    let nb = ty & libc::SOCK_NONBLOCK != 0;
    let c = kk.new_conn(false, 0, 0);
    for s in 0..2 {
        let o = kk.new_obj(Kind::Conn { conn: c, side: s, connected: true, err: 0, rcvtimeo: 0, sndtimeo: 0 }, nb);
        kk.conns[c].as_mut().unwrap().side[s] = Some(o);
        *out.add(s) = kk.new_fd(o);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(out: *mut c_int, flags: c_int) -> c_int {
    if !sim() {
        return raw::sc(libc::SYS_pipe2, out as usize, flags as usize, 0, 0, 0, 0) as c_int;
    }
    // the reading end first
    socketpair(libc::AF_UNIX, libc::SOCK_STREAM | (flags & libc::O_NONBLOCK), 0, out)
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, n: socklen_t) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_bind, fd as usize, a as usize, n as usize, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(27, 0);
    let r = (|| {
        let o = kk.fdobj(fd)?;
        let p = port_of(a)?;
        if kk.listeners.contains_key(&p) {
            return Err(libc::EADDRINUSE);
        }
        if kk.fds[&fd].dom == D {
            if let Some(e) = kk.bind_fault() {
                return Err(e);
            }
        }
        if let Kind::Sock { bound } = &mut kk.obj(o).kind {
            *bound = p;
        }
        Ok(0)
    })();
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_listen, fd as usize, n as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(28, 0);
    let r = (|| {
        let o = kk.fdobj(fd)?;
        let Kind::Sock { bound } = kk.obj(o).kind else { return Err(libc::EINVAL) };
        let backlog = if n <= 0 { 4096 } else { (n as usize).min(4096) };
        kk.obj(o).kind = Kind::Listener { port: bound, queue: VecDeque::new(), backlog };
        kk.listeners.insert(bound, o);
        kk.listening = true;
        kk.tr(|| format!("listens on {bound}"));
        kk.notify(CH_LISTEN);
        Ok(0)
    })();
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, n: *mut socklen_t, flags: c_int) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_accept4, fd as usize, a as usize, n as usize, flags as usize, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(29, 0);
    let r = (|| loop {
        let o = kk.fdobj(fd)?;
        let nb = kk.obj(o).nonblock;
        let Kind::Listener { queue, .. } = &mut kk.obj(o).kind else { return Err(libc::EINVAL) };
        if !queue.is_empty() {
            if let Some(e) = kk.accept_fault() {
                kk.tr(|| format!("accept fault {e}"));
                return Err(e);
            }
            let Kind::Listener { queue, .. } = &mut kk.obj(o).kind else { unreachable!() };
            let c = queue.pop_front().unwrap();
            let s = kk.new_obj(
                Kind::Conn { conn: c, side: 1, connected: true, err: 0, rcvtimeo: 0, sndtimeo: 0 },
                flags & libc::SOCK_NONBLOCK != 0,
            );
            let cn = kk.conns[c].as_mut().unwrap();
            cn.side[1] = Some(s);
            let port = cn.cport;
            fill_addr(a, n, port);
            let f = kk.new_fd(s);
            kk.tr(|| format!("accepts connection {c}"));
            return Ok(f as isize);
        }
        if nb {
            return Err(libc::EAGAIN);
        }
        kk.block(&[CH_OBJ + o as u64], None);
    })();
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, n: *mut socklen_t) -> c_int {
    accept4(fd, a, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, n: socklen_t) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_connect, fd as usize, a as usize, n as usize, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(30, 0);
    let r = (|| {
        if crate::mouse::out_of_reach() {
            return Err(libc::ECONNREFUSED);
        }
        let o = kk.fdobj(fd)?;
        let p = port_of(a)?;
        match &kk.obj(o).kind {
            Kind::Sock { .. } => {}
            Kind::Conn { connected: true, .. } => return Err(libc::EISCONN),
            Kind::Conn { .. } => return Err(libc::EALREADY),
            _ => return Err(libc::EINVAL),
        }
        let nb = kk.obj(o).nonblock;
        kk.connect(o, p);
        if nb {
            return Err(libc::EINPROGRESS);
        }
        loop {
            if let Kind::Conn { connected, err, .. } = &mut kk.obj(o).kind {
                if *err != 0 {
                    let e = *err;
                    *err = 0;
                    return Err(e);
                }
                if *connected {
                    return Ok(0);
                }
            }
            kk.block(&[CH_OBJ + o as u64], None);
        }
    })();
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_recvfrom, fd as usize, p as usize, n, flags as usize, 0, 0);
    }
    let _g = KG::new();
    let kk = k();
    kk.point(31, fd as u64);
    let b = std::slice::from_raw_parts_mut(p.cast::<u8>(), n);
    let r = kk.fdobj(fd).and_then(|o| conn_recv(o, b, flags & libc::MSG_PEEK != 0, flags & libc::MSG_DONTWAIT != 0));
    ret(r.map(|x| x as isize))
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, p: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_recvfrom, fd as usize, p as usize, n, flags as usize, a as usize, l as usize);
    }
    recv(fd, p, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_sendto, fd as usize, p as usize, n, flags as usize, 0, 0);
    }
    let _g = KG::new();
    let kk = k();
    kk.point(32, fd as u64);
    let b = std::slice::from_raw_parts(p.cast::<u8>(), n);
    let r = kk.fdobj(fd).and_then(|o| conn_send(o, b, flags & libc::MSG_DONTWAIT != 0));
    ret(r.map(|x| x as isize))
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, p: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_sendto, fd as usize, p as usize, n, flags as usize, a as usize, l as usize);
    }
    send(fd, p, n, flags)
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const libc::msghdr, flags: c_int) -> ssize_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_sendmsg, fd as usize, m as usize, flags as usize, 0, 0, 0);
    }
    writev(fd, (*m).msg_iov, (*m).msg_iovlen as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut libc::msghdr, flags: c_int) -> ssize_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_recvmsg, fd as usize, m as usize, flags as usize, 0, 0, 0);
    }
    readv(fd, (*m).msg_iov, (*m).msg_iovlen as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    kk.point(33, 0);
    let r = (|| {
        let o = kk.fdobj(fd)?;
        let Kind::Conn { conn, side, connected: true, .. } = kk.obj(o).kind else { return Err(libc::ENOTCONN) };
        if how == libc::SHUT_WR || how == libc::SHUT_RDWR {
            kk.shut_wr(conn, side);
        }
        if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
            kk.conns[conn].as_mut().unwrap().pipes[1 - side].fin = true;
            kk.notify_obj(o);
        }
        Ok(0)
    })();
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_getsockopt, fd as usize, lvl as usize, opt as usize, v as usize, l as usize, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    let o = match kk.fdobj(fd) {
        Ok(o) => o,
        Err(e) => return ret(Err(e)) as c_int,
    };
    core::ptr::write_bytes(v.cast::<u8>(), 0, *l as usize);
    if lvl == libc::SOL_SOCKET && opt == libc::SO_ERROR {
        if let Kind::Conn { err, conn, side, .. } = &mut kk.obj(o).kind {
            let mut e = *err;
            *err = 0;
            let (c, s) = (*conn, *side);
            if e == 0 && kk.conns[c].as_ref().unwrap().pipes[1 - s].rst {
                e = libc::ECONNRESET;
            }
            *v.cast::<c_int>() = e;
        }
    } else if lvl == libc::SOL_SOCKET && opt == libc::SO_TYPE {
        *v.cast::<c_int>() = libc::SOCK_STREAM;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_setsockopt, fd as usize, lvl as usize, opt as usize, v as usize, l as usize, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    let o = match kk.fdobj(fd) {
        Ok(o) => o,
        Err(e) => return ret(Err(e)) as c_int,
    };
    if lvl == libc::SOL_SOCKET && (opt == libc::SO_RCVTIMEO || opt == libc::SO_SNDTIMEO) {
        let tv = *v.cast::<libc::timeval>();
        let d = tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000;
        if let Kind::Conn { rcvtimeo, sndtimeo, .. } = &mut kk.obj(o).kind {
            if opt == libc::SO_RCVTIMEO {
                *rcvtimeo = d;
            } else {
                *sndtimeo = d;
            }
        }
    }
    if lvl == libc::SOL_SOCKET && opt == libc::SO_LINGER {
        // only used by our own clients, to reset
        kk.linger0.insert(o);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_getsockname, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    let r = kk.fdobj(fd).map(|o| {
        let p = match &kk.obj(o).kind {
            Kind::Listener { port, .. } => *port,
            Kind::Sock { bound } => *bound,
            Kind::Conn { conn, side, .. } => {
                let (c, s) = (*conn, *side);
                let c = kk.conns[c].as_ref().unwrap();
                if s == 0 {
                    c.cport
                } else {
                    c.port
                }
            }
            _ => 0,
        };
        fill_addr(a, l, p);
        0
    });
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_getpeername, fd as usize, a as usize, l as usize, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let kk = k();
    let r = kk.fdobj(fd).and_then(|o| match &kk.obj(o).kind {
        Kind::Conn { conn, side, connected: true, .. } => {
            let (c, s) = (*conn, *side);
            let c = kk.conns[c].as_ref().unwrap();
            fill_addr(a, l, if s == 0 { c.port } else { c.cport });
            Ok(0)
        }
        _ => Err(libc::ENOTCONN),
    });
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(n: *const c_char, s: *const c_char, h: *const libc::addrinfo, r: *mut *mut libc::addrinfo) -> c_int {
    if is_sim() {
        return libc::EAI_NONAME;
    }
    next!("getaddrinfo", unsafe extern "C" fn(*const c_char, *const c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> c_int)(n, s, h, r)
}

// ------------------------------------------------------------------------------------------------ files

struct Busy;
impl Busy {
    fn new() -> Self {
        k().fs_begin();
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        if !k().dead {
            k().fs_end();
        }
    }
}

fn fpath(o: usize) -> String {
    match &k().obj(o).kind {
        Kind::File { path, .. } | Kind::Dir { path, .. } => path.clone(),
        _ => String::new(),
    }
}
///time passes and the operation may fail; afterwards it is counted and the process may be killed before it
fn pre(op: u32, path: &str) -> Result<(), i32> {
    let kk = k();
    kk.fs_delay(op);
    kk.stats.fs_ops += 1;
    kk.mix(u64::from(op) << 32);
    if let Some(e) = kk.disk_fault(op, path) {
        return Err(e);
    }
    if op & OP_MUTATING != 0 {
        kk.fs_mut_ops += 1;
        kk.notify(CH_FSOP);
        kk.crash_here(0);
    }
    Ok(())
}
fn post(op: u32, path: &str, to: Option<&str>) {
    let kk = k();
    if op & (OP_MUTATING & !(OP_FSYNC | OP_FSYNCDIR)) != 0 {
        kk.log_fs(op, path, to);
    } else {
        kk.tr(|| format!("fs {} {path}", op_name(op)));
    }
    if op & OP_RENAME != 0 {
        kk.snap_if_meta(to.unwrap_or(path));
    }
    if op & OP_MUTATING != 0 {
        // there is nothing in the middle of these
        if kk.crash_check(1) || kk.crash_check(2) {
            kk.crash_now();
        }
    }
}

fn file_read(o: usize, buf: &mut [u8], at: Option<u64>) -> Result<usize, i32> {
    let _b = Busy::new();
    let p = fpath(o);
    pre(OP_READ, &p)?;
    let kk = k();
    let short = kk.short(OP_READ);
    let (ino, pos, can) = match &kk.obj(o).kind {
        Kind::File { ino, pos, read, .. } => (*ino, at.map_or(*pos, |x| x as usize), *read),
        _ => return Err(libc::EBADF),
    };
    if !can {
        return Err(libc::EBADF);
    }
    let d = &kk.disk.node(ino).data.0;
    let mut n = d.len().saturating_sub(pos).min(buf.len());
    if short && n > 1 {
        n = 1 + kk.rng.us(n - 1);
    }
    let d = &kk.disk.node(ino).data.0;
    if n > 0 {
        buf[..n].copy_from_slice(&d[pos..pos + n]);
    }
    if at.is_none() {
        if let Kind::File { pos, .. } = &mut kk.obj(o).kind {
            *pos += n;
        }
    }
    kk.tr(|| format!("fs read {p} {n}"));
    Ok(n)
}
fn file_write(o: usize, buf: &[u8], at: Option<u64>) -> Result<usize, i32> {
    let _b = Busy::new();
    let p = fpath(o);
    if let Kind::File { write: false, .. } = &k().obj(o).kind {
        return Err(libc::EBADF);
    }
    pre(OP_WRITE, &p)?;
    let kk = k();
    let mut n = buf.len();
    if n > 1 && kk.short(OP_WRITE) {
        n = 1 + kk.rng.us(n - 1);
    }
    if n > (1 << 30) {
        n = 1 << 30;
    }
    let (ino, pos) = match &mut kk.obj(o).kind {
        Kind::File { ino, pos, append, wrote, .. } => {
            *wrote = true;
            let i = *ino;
            let ap = *append;
            let ps = *pos;
            let len = kk.disk.node(i).data.0.len();
            (i, at.map_or(if ap { len } else { ps }, |x| x as usize))
        }
        _ => return Err(libc::EBADF),
    };
    let now = kk.now;
    if kk.crash_check(1) {
        let part = kk.rng.us(n + 1);
        kk.disk.write_at(ino, pos, &buf[..part], now);
        kk.crash_now();
    }
    kk.disk.write_at(ino, pos, &buf[..n], now);
    if at.is_none() {
        if let Kind::File { pos: ps, .. } = &mut kk.obj(o).kind {
            *ps = pos + n;
        }
    }
    post(OP_WRITE, &p, None);
    Ok(n)
}

fn abs(p: &str) -> String {
    if p.starts_with('/') {
        p.to_string()
    } else {
        format!("/{p}")
    }
}
///path relative to a directory descriptor
fn at_path(dirfd: c_int, p: &str) -> Result<String, i32> {
    if p.starts_with('/') || dirfd == libc::AT_FDCWD {
        return Ok(abs(p));
    }
    let o = k().fdobj(dirfd)?;
    Ok(format!("{}/{p}", fpath(o)))
}

fn do_open(path: &str, flags: c_int, mode: mode_t) -> Result<isize, i32> {
    let kk = k();
    kk.point(40, 0);
    let _b = Busy::new();
    let acc = flags & libc::O_ACCMODE;
    let (r, w) = (acc == libc::O_RDONLY || acc == libc::O_RDWR, acc == libc::O_WRONLY || acc == libc::O_RDWR);
    pre(OP_OPEN, path)?;
    let found = kk.disk.lookup(path);
    let ino = match found {
        Ok(i) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            let dir = kk.disk.node(i).dir;
            if dir && (w || flags & libc::O_CREAT != 0) {
                return Err(libc::EISDIR);
            }
            if !dir && flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 && !dir {
                if kk.disk.node(i).data.0.is_empty() {
                    kk.tr(|| format!("fs open {path}"));
                } else {
                    pre(OP_TRUNC, path)?;
                    k().disk.truncate(i, 0);
                    post(OP_TRUNC, path, None);
                }
            }
            i
        }
        Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
            pre(OP_CREATE, path)?;
            // might have appeared meanwhile
            let i = match k().disk.lookup(path) {
                Ok(i) => i,
                Err(_) => match k().disk.create(path, mode) {
                    Ok(i) => i,
                    Err(e) => {
                        if k().is_outside(path, OP_CREATE) {
                            k().escapes.push(format!("attempted create {path}"));
                        }
                        return Err(e);
                    }
                },
            };
            post(OP_CREATE, path, None);
            i
        }
        Err(e) => {
            kk.tr(|| format!("fs open {path} fails {e}"));
            return Err(e);
        }
    };
    let kk = k();
    let kind = if kk.disk.node(ino).dir {
        Kind::Dir { ino, path: path.to_string() }
    } else {
        Kind::File {
            ino,
            pos: 0,
            read: r,
            write: w,
            append: flags & libc::O_APPEND != 0,
            path: path.to_string(),
            wrote: false,
        }
    };
    let o = kk.new_obj(kind, false);
    Ok(kk.new_fd(o) as isize)
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int;
    }
    let _g = KG::new();
    ret(at_path(d, &cstr(p)).and_then(|p| do_open(&p, flags, mode))) as c_int
}

fn do_fsync(fd: c_int) -> Result<isize, i32> {
    let kk = k();
    kk.point(41, 0);
    let _b = Busy::new();
    let o = kk.fdobj(fd)?;
    let (ino, op, path) = match &kk.obj(o).kind {
        Kind::File { ino, path, .. } => (*ino, OP_FSYNC, path.clone()),
        Kind::Dir { ino, path } => (*ino, OP_FSYNCDIR, path.clone()),
        _ => return Err(libc::EINVAL),
    };
    pre(op, &path)?;
    k().disk.fsync(ino);
    post(op, &path, None);
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    ret(do_fsync(fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    ret(do_fsync(fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_syncfs, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    sync();
    0
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if !sim_d() {
        if !is_sim() {
            raw::sc(libc::SYS_sync, 0, 0, 0, 0, 0, 0);
        }
        return;
    }
    let _g = KG::new();
    k().point(41, 1);
    let _b = Busy::new();
    if pre(OP_FSYNC, "").is_ok() {
        k().disk.sync_everything();
        post(OP_FSYNC, "", None);
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let r = (|| {
        let kk = k();
        kk.point(42, 0);
        let _b = Busy::new();
        let o = kk.fdobj(fd)?;
        let (ino, path) = match &mut kk.obj(o).kind {
            Kind::File { ino, path, wrote, .. } => {
                *wrote = true;
                (*ino, path.clone())
            }
            _ => return Err(libc::EINVAL),
        };
        pre(OP_TRUNC, &path)?;
        k().disk.truncate(ino, len as usize);
        post(OP_TRUNC, &path, None);
        Ok(0)
    })();
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, _m: c_int, _o: off64_t, _l: off64_t) -> c_int {
    let _ = fd;
    set_errno(libc::EOPNOTSUPP);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(_f: c_int, _o: off64_t, _l: off64_t, _a: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0) as off64_t;
    }
    let _g = KG::new();
    let kk = k();
    let r = kk.fdobj(fd).and_then(|o| {
        let ino = match &kk.obj(o).kind {
            Kind::File { ino, .. } => *ino,
            _ => return Err(libc::ESPIPE),
        };
        let len = kk.disk.node(ino).data.0.len() as i64;
        let Kind::File { pos, .. } = &mut kk.obj(o).kind else { unreachable!() };
        let n = match wh {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => *pos as i64 + off,
            libc::SEEK_END => len + off,
            _ => return Err(libc::EINVAL),
        };
        if n < 0 {
            return Err(libc::EINVAL);
        }
        *pos = n as usize;
        Ok(n as isize)
    });
    ret(r) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}

fn path_op(op: u32, a: &str, b: Option<&str>, f: impl FnOnce(&mut disk::Disk) -> Result<(), i32>) -> Result<isize, i32> {
    k().point(43, u64::from(op));
    let _b = Busy::new();
    match b {
        Some(b) => pre(op, &format!("{a} -> {b}"))?,
        None => pre(op, a)?,
    }
    match f(&mut k().disk) {
        Ok(()) => {
            post(op, a, b);
            Ok(0)
        }
        Err(e) => {
            // an attempt to touch something outside counts as well
            k().tr(|| format!("fs {} {a} fails {e}", op_name(op)));
            if k().is_outside(a, op) || b.is_some_and(|b| k().is_outside(b, op)) {
                k().escapes.push(format!("attempted {} {a} {}", op_name(op), b.unwrap_or("")));
            }
            Err(e)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    renameat2(d, a, e, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: u32) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_renameat2, d as usize, a as usize, e as usize, b as usize, fl as usize, 0) as c_int;
    }
    let _g = KG::new();
    let r = (|| {
        let (a, b) = (at_path(d, &cstr(a))?, at_path(e, &cstr(b))?);
        path_op(OP_RENAME, &a, Some(&b), |x| x.rename(&a, &b))
    })();
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, a, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, a, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn remove(a: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, a, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, fl: c_int) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_unlinkat, d as usize, a as usize, fl as usize, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let r = at_path(d, &cstr(a)).and_then(|a| {
        path_op(OP_UNLINK, &a, None, |x| if fl & libc::AT_REMOVEDIR != 0 { x.rmdir(&a) } else { x.unlink(&a) })
    });
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_mkdir, a as usize, mode as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    let a = abs(&cstr(a));
    let r = path_op(OP_MKDIR, &a, None, |x| x.mkdir(a.trim_end_matches('/'), mode).map(|_| ()));
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_int) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_linkat, d as usize, a as usize, e as usize, b as usize, fl as usize, 0) as c_int;
    }
    let _g = KG::new();
    let r = (|| {
        let (a, b) = (at_path(d, &cstr(a))?, at_path(e, &cstr(b))?);
        path_op(OP_LINK, &b, None, |x| x.hardlink(&a, &b))
    })();
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_symlink, a as usize, b as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    k().unsupported.push("symlink".into());
    set_errno(libc::EPERM);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if !sim_d() {
        return raw::sc(libc::SYS_readlink, a as usize, b as usize, n, 0, 0, 0);
    }
    set_errno(libc::EINVAL);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: mode_t) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_chmod, a as usize, m as usize, 0, 0, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_fchmod, fd as usize, m as usize, 0, 0, 0, 0) as c_int;
    }
    0
}

fn stat_of(path: &str) -> Result<u64, i32> {
    k().point(44, 0);
    let _b = Busy::new();
    pre(OP_STAT, path)?;
    let r = k().disk.lookup(path);
    k().tr(|| format!("fs stat {path} {r:?}"));
    r
}
fn ino_of_fd(fd: c_int) -> Result<u64, i32> {
    let kk = k();
    kk.point(45, 0);
    let o = kk.fdobj(fd)?;
    match &kk.obj(o).kind {
        Kind::File { ino, .. } | Kind::Dir { ino, .. } => Ok(*ino),
        _ => Ok(0),
    }
}
unsafe fn fill_stat(ino: u64, st: *mut libc::stat64) {
    *st = core::mem::zeroed();
    (*st).st_ino = ino;
    (*st).st_dev = 7;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
    if ino == 0 {
        (*st).st_mode = libc::S_IFSOCK | 0o777;
        return;
    }
    let n = k().disk.node(ino);
    (*st).st_mode = if n.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_size = n.data.0.len() as i64;
    (*st).st_blocks = (n.data.0.len() as i64 + 511) / 512;
    (*st).st_mtime = (n.mtime / 1_000_000_000) as i64;
    (*st).st_mtime_nsec = (n.mtime % 1_000_000_000) as i64;
    (*st).st_uid = EUID;
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_stat, p as usize, st as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    ret(stat_of(&abs(&cstr(p))).map(|i| {
        fill_stat(i, st);
        0
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_lstat, p as usize, st as usize, 0, 0, 0, 0) as c_int;
    }
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    ret(ino_of_fd(fd).map(|i| {
        fill_stat(i, st);
        0
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_newfstatat, d as usize, p as usize, st as usize, fl as usize, 0, 0) as c_int;
    }
    let _g = KG::new();
    ret(at_path(d, &cstr(p)).and_then(|p| stat_of(&p)).map(|i| {
        fill_stat(i, st);
        0
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    let by_fd = !p.is_null() && *p == 0 && fl & libc::AT_EMPTY_PATH != 0;
    if !(sim_d() || (sim() && by_fd && mine(d))) {
        return raw::sc(libc::SYS_statx, d as usize, p as usize, fl as usize, mask as usize, st as usize, 0) as c_int;
    }
    let _g = KG::new();
    if p.is_null() || st.is_null() {
        set_errno(libc::EFAULT);
        return -1;
    }
    let r = if by_fd { ino_of_fd(d) } else { at_path(d, &cstr(p)).and_then(|p| stat_of(&p)) };
    ret(r.map(|i| {
        let mut s: libc::stat64 = core::mem::zeroed();
        fill_stat(i, &mut s);
        *st = core::mem::zeroed();
        (*st).stx_mask = libc::STATX_BASIC_STATS;
        (*st).stx_blksize = 4096;
        (*st).stx_nlink = 1;
        (*st).stx_mode = s.st_mode as u16;
        (*st).stx_ino = s.st_ino;
        (*st).stx_size = s.st_size as u64;
        (*st).stx_blocks = s.st_blocks as u64;
        (*st).stx_mtime.tv_sec = s.st_mtime;
        (*st).stx_mtime.tv_nsec = s.st_mtime_nsec as u32;
        (*st).stx_uid = s.st_uid;
        0
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_access, p as usize, m as usize, 0, 0, 0, 0) as c_int;
    }
    let _g = KG::new();
    ret(stat_of(&abs(&cstr(p))).map(|_| 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !sim_d() {
        return next!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out);
    }
    let _g = KG::new();
    let path = abs(&cstr(p));
    match stat_of(&path) {
        Ok(_) => {
            let c = disk::canonical(&path);
            let dst = if out.is_null() { libc::malloc(c.len() + 1).cast::<c_char>() } else { out };
            core::ptr::copy_nonoverlapping(c.as_ptr(), dst.cast::<u8>(), c.len());
            *dst.add(c.len()) = 0;
            dst
        }
        Err(e) => {
            set_errno(e);
            core::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const libc::timespec, fl: c_int) -> c_int {
    if !sim_d() {
        return raw::sc(libc::SYS_utimensat, d as usize, p as usize, t as usize, fl as usize, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if !sim() || !mine(fd) {
        return raw::sc(libc::SYS_utimensat, fd as usize, 0, t as usize, 0, 0, 0) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: u32) -> ssize_t {
    if !sim() || !(mine(a) || mine(c)) {
        return raw::sc(libc::SYS_copy_file_range, a as usize, b as usize, c as usize, d as usize, n, f as usize);
    }
    set_errno(libc::ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: *mut off64_t, n: size_t) -> ssize_t {
    if !sim() || !(mine(a) || mine(b)) {
        return raw::sc(libc::SYS_sendfile, a as usize, b as usize, c as usize, n, 0, 0);
    }
    set_errno(libc::EINVAL);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: u32) -> ssize_t {
    if !sim() || !(mine(a) || mine(c)) {
        return raw::sc(libc::SYS_splice, a as usize, b as usize, c as usize, d as usize, n, f as usize);
    }
    set_errno(libc::EINVAL);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(p: *mut c_char, n: size_t) -> *mut c_char {
    if !sim_d() {
        return next!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(p, n);
    }
    *p = b'/' as c_char;
    *p.add(1) = 0;
    p
}

// directories

struct SimDir {
    fd: c_int,
    ents: Vec<(String, u64, bool)>,
    pos: usize,
    cur: libc::dirent64,
}
unsafe fn make_dir(fd: c_int) -> Result<*mut SimDir, i32> {
    let kk = k();
    let o = kk.fdobj(fd)?;
    let Kind::Dir { ino, .. } = kk.obj(o).kind else { return Err(libc::ENOTDIR) };
    let mut ents: Vec<(String, u64, bool)> =
        kk.disk.node(ino).ents.iter().map(|(n, &i)| (n.clone(), i, kk.disk.node(i).dir)).collect();
    // in no particular order
    kk.rng.shuffle(&mut ents);
    ents.push((".".into(), ino, true));
    Ok(Box::into_raw(Box::new(SimDir { fd, ents, pos: 0, cur: core::mem::zeroed() })))
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if !sim_d() {
        return next!("opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void)(p);
    }
    let _g = KG::new();
    match do_open(&abs(&cstr(p)), libc::O_RDONLY | libc::O_DIRECTORY, 0).and_then(|f| make_dir(f as c_int)) {
        Ok(d) => d.cast(),
        Err(e) => {
            set_errno(e);
            core::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if !sim_d() {
        return next!("fdopendir", unsafe extern "C" fn(c_int) -> *mut c_void)(fd);
    }
    let _g = KG::new();
    match make_dir(fd) {
        Ok(d) => d.cast(),
        Err(e) => {
            set_errno(e);
            core::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if !sim_d() {
        return next!("readdir64", unsafe extern "C" fn(*mut c_void) -> *mut libc::dirent64)(d);
    }
    let _g = KG::new();
    let s = &mut *d.cast::<SimDir>();
    if s.pos >= s.ents.len() {
        return core::ptr::null_mut();
    }
    let path = k().fdobj(s.fd).map(fpath).unwrap_or_default();
    if s.pos == 0 {
        let _b = Busy::new();
        if let Err(e) = pre(OP_READ, &path) {
            set_errno(e);
            return core::ptr::null_mut();
        }
    }
    let (n, i, dir) = &s.ents[s.pos];
    s.pos += 1;
    s.cur = core::mem::zeroed();
    s.cur.d_ino = *i;
    s.cur.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
    s.cur.d_reclen = core::mem::size_of::<libc::dirent64>() as u16;
    for (x, b) in n.bytes().take(255).enumerate() {
        s.cur.d_name[x] = b as c_char;
    }
    &mut s.cur
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if !sim_d() {
        return next!("dirfd", unsafe extern "C" fn(*mut c_void) -> c_int)(d);
    }
    (*d.cast::<SimDir>()).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    if !sim_d() {
        return next!("closedir", unsafe extern "C" fn(*mut c_void) -> c_int)(d);
    }
    let _g = KG::new();
    let s = Box::from_raw(d.cast::<SimDir>());
    let _ = k().close(s.fd);
    0
}
///std asks for the guard page of its stacks; a crash in a simulated thread is handled by `on_crash` instead
#[no_mangle]
pub unsafe extern "C" fn pthread_getattr_np(t: libc::pthread_t, a: *mut libc::pthread_attr_t) -> c_int {
    if is_sim() {
        return libc::ENOSYS;
    }
    next!("pthread_getattr_np", unsafe extern "C" fn(libc::pthread_t, *mut libc::pthread_attr_t) -> c_int)(t, a)
}
