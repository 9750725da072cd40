//! The wall clock seen by the current thread can be set by the harness (the monotonic clock and other threads keep the real one).
use std::cell::Cell;
thread_local! { static FAKE_MS: Cell<i64> = const { Cell::new(i64::MIN) }; }
pub fn set(ms: Option<i64>) { FAKE_MS.with(|f| f.set(ms.unwrap_or(i64::MIN))) }
/// stands in for the C library's function of the same name
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Ok(ms) = FAKE_MS.try_with(|f| f.get()) {
            if ms != i64::MIN { unsafe { (*ts).tv_sec = ms.div_euclid(1000) as _; (*ts).tv_nsec = (ms.rem_euclid(1000) * 1_000_000) as _; } return 0; }
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int }
}
