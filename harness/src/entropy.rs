//! The entropy seam.
//!
//! `rand::thread_rng` (used by the code under test) and the standard library's
//! hash-map keys both draw their seeds from the operating system.  The harness
//! binary interposes the two C entry points they use, `syscall` and
//! `getrandom`, and serves the bytes from a thread-local stream seeded by the
//! scenario.  Every simulated run has a thread of its own, so the
//! thread-local generators built on these bytes start afresh in each run.
//! Requests of different sizes have streams of their own, so that the bytes
//! served to a generator do not depend on whether a hash map came before it.

use crate::prng::mix;
use std::cell::Cell;

thread_local! {
    static STREAM: [Cell<u64>; 2] = const { [Cell::new(0x1234_5678_9ABC_DEF0), Cell::new(0x0FED_CBA9_8765_4321)] };
    static DRAWS: Cell<u64> = const { Cell::new(0) };
}

pub fn seed(s: u64) {
    STREAM.with(|c| {
        c[0].set(mix(s ^ 0xE7E7_1EAF));
        c[1].set(mix(s ^ 0x4A54_11A9));
    });
    DRAWS.with(|c| c.set(0));
}

/// How many times the operating system's entropy was asked for in this run.
pub fn draws() -> u64 {
    DRAWS.with(|c| c.get())
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let _ = DRAWS.try_with(|c| c.set(c.get() + 1));
    let k = (len <= 16) as usize;
    let mut s = STREAM.try_with(|c| c[k].get()).unwrap_or(7);
    for i in 0..len {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        *buf.add(i) = mix(s) as u8;
    }
    let _ = STREAM.try_with(|c| c[k].set(s));
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

const SYS_GETRANDOM: i64 = 318;

/// Interposes libc's `getrandom(2)` wrapper.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}

/// Interposes libc's `syscall(2)`: everything but `getrandom` goes to the kernel.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    num: i64,
    a: i64,
    b: i64,
    c: i64,
    d: i64,
    e: i64,
    f: i64,
) -> i64 {
    if num == SYS_GETRANDOM {
        fill(a as *mut u8, b as usize);
        return b;
    }
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") num => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    if (-4095..0).contains(&ret) {
        *__errno_location() = (-ret) as i32;
        return -1;
    }
    ret
}
