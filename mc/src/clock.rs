//! The time the library sees. `clock_gettime` of the C library is replaced: while
//! a case runs, hours and days pass between some looks at the clock and nothing
//! between others, at no cost. ur20 has no notion of time today, so that
//! this changes nothing; behaviour that depends on time would show.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Duration;

/// How far the clock is ahead, in nanoseconds.
static AHEAD: AtomicU64 = AtomicU64::new(0);
const LIMIT: u64 = 200 * 365 * 86_400 * SEC;
const MS: u64 = 1_000_000;
const SEC: u64 = 1000 * MS;

/// What passes before a look at the clock.
const STEPS: [u64; 24] = [
    0,
    0,
    0,
    0,
    MS,
    0,
    20 * MS,
    0,
    0,
    300 * MS,
    2 * SEC,
    0,
    0,
    0,
    15 * SEC,
    90 * SEC,
    0,
    1200 * SEC,
    0,
    0,
    7200 * SEC,
    0,
    86_401 * SEC,
    50 * 86_400 * SEC,
];

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Real,
    /// the next step
    Steps(usize),
    /// that far ahead
    Fixed(u64),
}

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Real) };
}

fn ahead() -> u64 {
    match MODE.get() {
        Mode::Real => 0,
        Mode::Fixed(n) => n,
        Mode::Steps(k) => {
            MODE.set(Mode::Steps((k + 1) % STEPS.len()));
            let d = STEPS[k];
            if d == 0 || AHEAD.load(Relaxed) > LIMIT {
                return AHEAD.load(Relaxed);
            }
            AHEAD.fetch_add(d, Relaxed) + d
        }
    }
}

#[cfg(all(target_os = "linux", target_pointer_width = "64", any(target_arch = "x86_64", target_arch = "aarch64")))]
mod hook {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    #[cfg(target_arch = "x86_64")]
    const NR: i64 = 228;
    #[cfg(target_arch = "aarch64")]
    const NR: i64 = 113;

    /// # Safety
    /// As the function of the C library.
    #[no_mangle]
    unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
        let r = syscall(NR, i64::from(id), ts) as i32;
        if r == 0 {
            let a = super::ahead();
            if a != 0 {
                let n = (*ts).nsec + (a % 1_000_000_000) as i64;
                (*ts).sec += (a / 1_000_000_000) as i64 + n / 1_000_000_000;
                (*ts).nsec = n % 1_000_000_000;
            }
        }
        r
    }
}

fn with<T>(m: Mode, f: impl FnOnce() -> T) -> T {
    struct Back(Mode);
    impl Drop for Back {
        fn drop(&mut self) {
            MODE.set(self.0);
        }
    }
    let _b = Back(MODE.replace(m));
    f()
}

/// `f` with the time of the machine.
pub fn real<T>(f: impl FnOnce() -> T) -> T {
    with(Mode::Real, f)
}

/// `f` while the clock makes steps.
pub fn steps<T>(f: impl FnOnce() -> T) -> T {
    with(Mode::Steps(0), f)
}

/// A point in time later than all that were seen.
pub fn base() -> Duration {
    Duration::from_nanos(AHEAD.load(Relaxed))
}

/// `f` that far ahead of the machine's time.
pub fn at<T>(d: Duration, f: impl FnOnce() -> T) -> T {
    AHEAD.fetch_max(d.as_nanos() as u64, Relaxed);
    with(Mode::Fixed(d.as_nanos() as u64), f)
}

/// Does that work here?
pub fn works() -> bool {
    let day = Duration::from_secs(86_400);
    let (a, w) = real(|| (std::time::Instant::now(), std::time::SystemTime::now()));
    with(Mode::Fixed(86_400 * SEC), || a.elapsed() >= day && w.elapsed().is_ok_and(|e| e >= day))
}
