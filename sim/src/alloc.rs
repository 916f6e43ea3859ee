//! Global allocator with deterministic addresses. No locks: only one simulated thread ever runs, and every other
//! user of it is single-threaded.
use crate::{kern, raw};
use core::alloc::{GlobalAlloc, Layout};

pub struct SimAlloc;

const BASE: usize = 0x6000_0000_0000;
const SIZE: usize = 32 << 30;
///largest single allocation that succeeds
pub const MAX_ONE: usize = 1 << 30;
///all live allocations together
pub const MAX_LIVE: usize = 1536 << 20;

const NCLASS: usize = 64 + 4 * 32;

struct State {
    init: bool,
    bump: usize,
    free: [usize; NCLASS],
    live: usize,
    peak: usize,
}
///what was allocated before a life began stays where it is and is never reused
static mut FLOOR: usize = 0;

///a life begins: from here on the addresses do not depend on what happened before
pub unsafe fn restart() {
    FLOOR = BASE + SIZE / 2;
    S.bump = FLOOR;
    S.free = [0; NCLASS];
    S.live = 0;
    S.peak = 0;
}

static mut S: State = State { init: false, bump: BASE, free: [0; NCLASS], live: 0, peak: 0 };

pub static mut LIMITED: bool = false;
pub static mut COUNTDOWN: u64 = u64::MAX;
pub static mut ALLOC_FAILED: u64 = 0;
///count what the daemon itself holds
pub static mut TRACK: bool = false;
pub static mut DAEMON_LIVE: i64 = 0;

pub fn live() -> usize {
    unsafe { S.live }
}
pub fn peak() -> usize {
    unsafe { S.peak }
}
pub fn reset_peak() {
    unsafe { S.peak = S.live }
}

#[inline]
fn class_of(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let c = (size + 15) / 16;
        let c = if c == 0 { 1 } else { c };
        (c - 1, c * 16)
    } else {
        let top = usize::BITS as usize - 1 - (size - 1).leading_zeros() as usize; // 2^top <= size-1 < 2^(top+1)
        let quarter = 1usize << (top - 2);
        let steps = (size - (1 << top) + quarter - 1) / quarter; // 1..=4
        let sz = (1usize << top) + steps * quarter;
        (64 + (top - 10) * 4 + steps - 1, sz)
    }
}

#[cold]
unsafe fn init() {
    let r = raw::sc6(
        libc::SYS_mmap,
        BASE,
        SIZE,
        (libc::PROT_READ | libc::PROT_WRITE) as usize,
        (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as usize,
        usize::MAX,
        0,
    );
    if r as usize != BASE {
        raw::write_err("simrun: unable to map the arena\n");
        raw::exit_now(3);
    }
    S.init = true;
}

impl SimAlloc {
    #[inline]
    unsafe fn get(&self, l: Layout) -> (*mut u8, bool) {
        if !S.init {
            init();
        }
        if COUNTDOWN != u64::MAX && kern::preemptible() {
            COUNTDOWN -= 1;
            if COUNTDOWN == 0 {
                kern::alloc_point();
            }
        }
        let need = l.size().max(1);
        let align = l.align();
        if align > 16 {
            // rare: take from the bump region, never reused for other alignments
            let sz = (need + align - 1) & !(align - 1);
            let p = (S.bump + align - 1) & !(align - 1);
            S.bump = (p + sz + 15) & !15;
            if S.bump > BASE + SIZE {
                return (core::ptr::null_mut(), false);
            }
            return (p as *mut u8, true);
        }
        if LIMITED && (need > MAX_ONE || S.live + need > MAX_LIVE) {
            ALLOC_FAILED += 1;
            return (core::ptr::null_mut(), false);
        }
        let (c, sz) = class_of(need);
        S.live += sz;
        if TRACK && kern::preemptible() {
            DAEMON_LIVE += sz as i64;
        }
        if S.live > S.peak {
            S.peak = S.live;
        }
        let f = S.free[c];
        if f != 0 {
            S.free[c] = *(f as *const usize);
            return (f as *mut u8, false);
        }
        let p = S.bump;
        S.bump += sz;
        if S.bump > BASE + SIZE {
            return (core::ptr::null_mut(), false);
        }
        (p as *mut u8, true)
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.get(l).0
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let (p, fresh) = self.get(l);
        if !p.is_null() && !fresh {
            core::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 || (p as usize) < FLOOR {
            return;
        }
        let (c, sz) = class_of(l.size().max(1));
        S.live -= sz;
        if TRACK && kern::preemptible() {
            DAEMON_LIVE -= sz as i64;
        }
        *(p as *mut usize) = S.free[c];
        S.free[c] = p as usize;
    }
}
