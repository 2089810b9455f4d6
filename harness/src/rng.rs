//! Deterministic OS randomness inside a case.
//!
//! kpdb draws its salts from getrandom(2) (rand's OsRng through `syscall`, uuid through
//! `getrandom`) and std seeds its hash maps the same way. The harness's executable defines both
//! symbols; on a thread that runs a case they are served from a generator seeded by the case, so
//! that a failing case fails again when replayed. On every other thread they reach the kernel.

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static STATE: Cell<Option<u64>> = const { Cell::new(None) };
}

/// How many bytes were served from a case's generator (evidence that the interposition works).
pub static SERVED: AtomicU64 = AtomicU64::new(0);

pub fn seed(s: u64) {
    STATE.with(|c| c.set(Some(s)));
}

fn next(c: &Cell<Option<u64>>) -> u64 {
    let s = c.get().unwrap_or(0).wrapping_add(0x9e37_79b9_7f4a_7c15);
    c.set(Some(s));
    mix(s)
}

pub fn mix(s: u64) -> u64 {
    let mut z = s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn fill(buf: *mut u8, len: usize) -> bool {
    STATE
        .try_with(|c| {
            if c.get().is_none() {
                return false;
            }
            let mut i = 0;
            while i < len {
                let w = next(c).to_le_bytes();
                let n = (len - i).min(8);
                unsafe { std::ptr::copy_nonoverlapping(w.as_ptr(), buf.add(i), n) };
                i += n;
            }
            SERVED.fetch_add(len as u64, Ordering::Relaxed);
            true
        })
        .unwrap_or(false)
}

unsafe extern "C" {
    fn __errno_location() -> *mut i32;
}

const SYS_GETRANDOM: i64 = 318;

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    unsafe {
        std::arch::asm!(
            "syscall",
            inlateout("rax") n => ret,
            in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _,
        );
        if (-4095..0).contains(&ret) {
            *__errno_location() = -ret as i32;
            -1
        } else {
            ret
        }
    }
}

/// # Safety
/// As getrandom(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if fill(buf, len) {
        return len as isize;
    }
    unsafe { raw(SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize }
}

/// # Safety
/// As syscall(2). The arguments are integers or pointers, which the C ABI passes alike to a
/// variadic function and to this one.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM && fill(a as *mut u8, b as usize) {
        return b;
    }
    unsafe { raw(n, a, b, c, d, e, f) }
}

// ------------------------------------------------------------------- the clock

thread_local! {
    /// Nanoseconds since the epoch, and how far the clock goes with every reading.
    static CLOCK: Cell<Option<(i128, i128)>> = const { Cell::new(None) };
}

/// The system clock of this thread, from now on (`None`: the real one).
pub fn set_clock(c: Option<(i128, i128)>) {
    CLOCK.with(|k| k.set(c));
}

const SYS_CLOCK_GETTIME: i64 = 228;

/// # Safety
/// As clock_gettime(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: i32, tp: *mut [i64; 2]) -> i32 {
    // the real time clock, precise or coarse
    if clock == 0 || clock == 5 {
        if let Ok(Some((now, step))) = CLOCK.try_with(|c| c.get()) {
            let _ = CLOCK.try_with(|c| c.set(Some((now + step, step))));
            unsafe { *tp = [now.div_euclid(1_000_000_000) as i64, now.rem_euclid(1_000_000_000) as i64] };
            return 0;
        }
    }
    unsafe { raw(SYS_CLOCK_GETTIME, clock as i64, tp as i64, 0, 0, 0, 0) as i32 }
}

/// Called from `main` so that the linker keeps this module's symbols.
pub fn keep() -> usize {
    std::hint::black_box(getrandom as *const () as usize) ^ std::hint::black_box(syscall as *const () as usize) ^ std::hint::black_box(clock_gettime as *const () as usize)
}
