//! Virtual process clock.
//!
//! The harness binary defines `clock_gettime`, so every clock read of the code under test (std `Instant`,
//! tokio timers, `CLOCK_BOOTTIME` in the rate limiter, `SystemTime`) goes through here.  While virtual mode is on,
//! time moves only when the harness moves it.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::time::Duration;

static ON: AtomicBool = AtomicBool::new(false);
static MONO: AtomicI64 = AtomicI64::new(0); // ns
static REAL_MINUS_MONO: AtomicI64 = AtomicI64::new(0);

unsafe fn raw(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !ON.load(SeqCst) {
        return raw(clk, ts);
    }
    let mono = MONO.load(SeqCst);
    let v = match clk {
        libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW => mono,
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => mono + REAL_MINUS_MONO.load(SeqCst),
        _ => return raw(clk, ts),
    };
    (*ts).tv_sec = v / 1_000_000_000;
    (*ts).tv_nsec = v % 1_000_000_000;
    0
}

fn read_raw(clk: libc::clockid_t) -> i64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        raw(clk, &mut ts);
        ts.tv_sec * 1_000_000_000 + ts.tv_nsec
    }
}

/// real monotonic time, whatever the mode
pub fn real() -> Duration {
    Duration::from_nanos(read_raw(libc::CLOCK_MONOTONIC) as u64)
}

pub fn enable() {
    let mono = read_raw(libc::CLOCK_MONOTONIC).max(0) + 100_000_000_000_000;
    MONO.store(mono, SeqCst);
    REAL_MINUS_MONO.store(read_raw(libc::CLOCK_REALTIME) - mono, SeqCst);
    ON.store(true, SeqCst);
}

/// virtual milliseconds (f64 seconds are awkward to compare)
pub fn now_us() -> i64 {
    MONO.load(SeqCst) / 1000
}

pub fn advance_us(us: i64) {
    MONO.fetch_add(us * 1000, SeqCst);
}

/// Responses must not sit in the kernel until the peer's delayed acknowledgement (40 real milliseconds, which may be
/// minutes of virtual time): hyper turns TCP_NODELAY off on the sockets it accepts, this turns that into on.
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: libc::c_int, level: libc::c_int, name: libc::c_int, val: *const libc::c_void, len: libc::socklen_t) -> libc::c_int {
    let one: libc::c_int = 1;
    let nodelay = level == libc::IPPROTO_TCP && name == libc::TCP_NODELAY && len == 4;
    let v = if nodelay { &one as *const libc::c_int as *const libc::c_void } else { val };
    libc::syscall(libc::SYS_setsockopt, fd, level, name, v, len) as libc::c_int
}
