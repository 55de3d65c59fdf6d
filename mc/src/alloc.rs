//! glibc's `realloc` takes the lock of the arena a block came from; with eight
//! workers that lock dominated several checks.  Small blocks are moved by
//! malloc and free instead, which stay in the thread's own cache.
//!
//! Small blocks start at changing addresses, aligned as asked for and not always more:
//! nothing may depend on where a buffer happens to lie.
//!
//! The allocator also provides scheduling points inside calls of the library:
//! an armed thread hands its turn over after a given number of allocator calls.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Moving;

/// Blocks up to this size start at changing addresses.
const SMALL: usize = 1024;
const BASE: usize = 16;

#[inline]
fn shifts(l: Layout) -> bool {
    l.size() <= SMALL && l.align() < BASE
}

thread_local! {
    static TURN: Cell<usize> = const { Cell::new(0) };
}

/// Every case starts with the same addresses modulo 16.
pub fn restart() {
    TURN.set(0);
}

/// A block which is aligned as asked for, and, from one block to the next, not more
/// than that: sometimes to the alignment only, sometimes to twice of it, ...
#[inline]
unsafe fn get(l: Layout) -> *mut u8 {
    if !shifts(l) {
        return System.alloc(l);
    }
    let p = System.alloc(Layout::from_size_align_unchecked(l.size() + BASE, BASE));
    if p.is_null() {
        return p;
    }
    let t = TURN.get();
    TURN.set(t.wrapping_add(1));
    // 16 odd steps visit every place
    p.add((t * 11 % BASE) & !(l.align() - 1))
}

#[inline]
unsafe fn put(p: *mut u8, l: Layout) {
    if !shifts(l) {
        return System.dealloc(p, l);
    }
    System.dealloc(
        ((p as usize) & !(BASE - 1)) as *mut u8,
        Layout::from_size_align_unchecked(l.size() + BASE, BASE),
    )
}

// SAFETY: blocks come from the system allocator, a small one with room to start it at any
// multiple of its alignment within the first 16 bytes, from where its beginning is found
// again; `realloc` of a small block is the documented default (allocate, copy the common
// prefix, free).
unsafe impl GlobalAlloc for Moving {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        get(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        put(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        if !shifts(l) {
            return System.alloc_zeroed(l);
        }
        let p = get(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        let m = Layout::from_size_align_unchecked(n, l.align());
        if !shifts(l) && !shifts(m) {
            return System.realloc(p, l, n);
        }
        let q = get(m);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            put(p, l);
        }
        q
    }
}

#[global_allocator]
static ALLOC: Moving = Moving;

thread_local! {
    /// Points this thread still passes before it hands over; 0 = not armed.
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static GATE: Cell<Option<(&'static Gate, usize)>> = const { Cell::new(None) };
}

#[inline]
fn point() {
    let n = LEFT.get();
    if n != 0 {
        LEFT.set(n - 1);
        if n == 1 {
            if let Some((g, me)) = GATE.get() {
                g.hand_over(me);
            }
        }
    }
}

/// Two threads which run in turns.
pub struct Gate {
    s: Mutex<(usize, [bool; 2])>,
    tid: [AtomicI32; 2],
    held_up: [AtomicBool; 2],
    c: Condvar,
}

impl Default for Gate {
    fn default() -> Gate {
        Gate {
            s: Mutex::new((0, [false; 2])),
            tid: [const { AtomicI32::new(0) }; 2],
            held_up: [const { AtomicBool::new(false) }; 2],
            c: Condvar::new(),
        }
    }
}

extern "C" {
    fn gettid() -> i32;
}

/// Does this thread sleep?
fn sleeps(tid: i32) -> bool {
    use std::io::Read;
    let mut b = [0u8; 256];
    let n = std::fs::File::open(format!("/proc/self/task/{tid}/stat"))
        .and_then(|mut f| f.read(&mut b))
        .unwrap_or(0);
    // the name in parentheses may contain anything
    let after = b[..n].iter().rposition(|&c| c == b')').unwrap_or(0);
    b.get(after + 2) == Some(&b'S')
}

/// A thread that has the turn and sleeps all the same waits for something the other one
/// holds (a lock).  That schedule is not possible, and the other one goes on.
const ASLEEP: u32 = 3;
/// It goes on as well if the other one does not come back for so long.
const LOST: Duration = Duration::from_millis(300);

impl Gate {
    fn wait(&self, me: usize) {
        crate::clock::real(|| self.wait_now(me))
    }
    fn wait_now(&self, me: usize) {
        let mut s = self.s.lock().unwrap();
        let since = Instant::now();
        let mut asleep = 0;
        while s.0 != me && !s.1[1 - me] {
            if asleep >= ASLEEP {
                self.held_up[1 - me].store(true, Relaxed);
                break;
            }
            if since.elapsed() >= LOST {
                break;
            }
            s = self.c.wait_timeout(s, Duration::from_micros(300)).unwrap().0;
            let other = self.tid[1 - me].load(Relaxed);
            asleep = if other != 0 && sleeps(other) { asleep + 1 } else { 0 };
        }
        s.0 = me;
    }
    fn hand_over(&self, me: usize) {
        self.s.lock().unwrap().0 = 1 - me;
        self.c.notify_all();
        self.wait(me);
    }
    /// Ready for the next pair (no thread is inside).
    pub fn reset(&self) {
        *self.s.lock().unwrap() = (0, [false; 2]);
        self.tid.iter().for_each(|t| t.store(0, Relaxed));
        self.held_up.iter().for_each(|h| h.store(false, Relaxed));
    }
    /// Enter as thread `me`; runs when it has the turn.
    pub fn enter(&'static self, me: usize) {
        GATE.set(Some((self, me)));
        // SAFETY: no preconditions
        self.tid[me].store(unsafe { gettid() }, Relaxed);
        self.wait(me);
    }
    /// Did this thread have to wait for something the other one held?
    pub fn held_up(&self, me: usize) -> bool {
        self.held_up[me].load(Relaxed)
    }
    pub fn leave(&self, me: usize) {
        LEFT.set(0);
        GATE.set(None);
        let mut s = self.s.lock().unwrap();
        s.1[me] = true;
        s.0 = 1 - me;
        self.c.notify_all();
    }
}

/// The next handing over happens at the `n`-th point from now (0: never).
pub fn arm(n: u64) {
    LEFT.set(n);
}
/// Points left until then.
pub fn disarm() -> u64 {
    LEFT.replace(0)
}
