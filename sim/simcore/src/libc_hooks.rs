//! Replacements for the libc calls through which std and dependencies read the
//! clock and obtain random bytes.
use std::sync::atomic::Ordering;

const BASE_WALL: u64 = 1_700_000_000_000_000_000;
const BASE_MONO: u64 = 1_000_000_000_000_000;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
const SYS_CLOCK_GETTIME: i64 = 228;

/// Reads the real monotonic clock (for wall-time budgets of the driver only).
pub fn real_now_ns() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { syscall(SYS_CLOCK_GETTIME, 1i64, &mut t as *mut Timespec) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

/// # Safety
/// As for the libc function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if !crate::active() {
        return syscall(SYS_CLOCK_GETTIME, clk as i64, ts) as i32;
    }
    let n = crate::now();
    let v = if clk == 0 || clk == 5 || clk == 11 {
        (BASE_WALL + n) as i128 + crate::wall_offset() as i128
    } else {
        (BASE_MONO + n) as i128
    };
    (*ts).sec = v.div_euclid(1_000_000_000) as i64;
    (*ts).nsec = v.rem_euclid(1_000_000_000) as i64;
    0
}

/// # Safety
/// As for the libc function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < len {
        let b = crate::entropy().to_le_bytes();
        for x in b {
            if i < len {
                *buf.add(i) = x;
                i += 1;
            }
        }
    }
    crate::GETRANDOM_CALLS.fetch_add(1, Ordering::Relaxed);
    len as isize
}
/// # Safety
/// As for the libc function.
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    getrandom(buf, len, 0);
    0
}
