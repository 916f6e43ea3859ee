//! Real system calls, not seen by the simulator.
use core::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

///like libc: -1 and errno
pub unsafe fn sc(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r = sc6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    sc6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        sc6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn write_err(s: &str) {
    unsafe {
        sc6(libc::SYS_write, 2, s.as_ptr() as usize, s.len(), 0, 0, 0);
    }
}
///real monotonic time, only ever used by the supervising processes
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        sc6(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}
