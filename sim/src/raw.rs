//! Raw system calls and errno, never intercepted.
use std::arch::asm;

#[inline(always)]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

/// kernel style result -> libc style
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub unsafe fn err(e: i32) -> i64 {
    set_errno(e);
    -1
}

macro_rules! sc {
    ($n:expr $(, $a:expr)*) => { $crate::raw::sc_pad($n as i64, &[$($a as i64),*]) };
}
pub(crate) use sc;

#[inline(always)]
pub unsafe fn sc_pad(n: i64, a: &[i64]) -> i64 {
    let g = |i: usize| if i < a.len() { a[i] } else { 0 };
    syscall6(n, g(0), g(1), g(2), g(3), g(4), g(5))
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        sc!(libc::SYS_futex, addr, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, val, 0, 0, 0);
    }
}

pub fn futex_wake(addr: *const u32) {
    unsafe {
        sc!(libc::SYS_futex, addr, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
    }
}
