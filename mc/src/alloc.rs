//! Counting allocator: live/peak bytes per thread, and a cap that turns an absurd request into a
//! deterministic, attributable death instead of an out-of-memory kill.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}

static GIVEN_WAY: AtomicUsize = AtomicUsize::new(0);

/// Where a thread may be stopped: just before its n-th request to the allocator.
pub struct Gate {
    /// 0 running, 1 stopped, 2 told to go on, 3 finished
    at: Mutex<(u8, bool)>,
    turn: Condvar,
}
impl Gate {
    pub const fn new() -> Gate {
        Gate { at: Mutex::new((0, false)), turn: Condvar::new() }
    }
    fn stop(&self) {
        let mut a = self.at.lock().unwrap();
        if a.0 != 0 {
            return;
        }
        a.0 = 1;
        self.turn.notify_all();
        // code that keeps doing so is not given the time again and again
        let ms = if GIVEN_WAY.load(Ordering::Relaxed) < 40 { 300 } else { 10 };
        let end = Instant::now() + Duration::from_millis(ms);
        // whoever would have to wait for this thread gets its way in the end
        while a.0 == 1 {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                *a = (2, true);
                GIVEN_WAY.fetch_add(1, Ordering::Relaxed);
                return;
            }
            a = self.turn.wait_timeout(a, left).unwrap().0;
        }
    }
    pub fn finish(&self) {
        self.at.lock().unwrap().0 = 3;
        self.turn.notify_all();
    }
    /// Wait until the thread has stopped or finished.
    pub fn stopped(&self) {
        let mut a = self.at.lock().unwrap();
        while a.0 == 0 {
            a = self.turn.wait(a).unwrap();
        }
    }
    pub fn go(&self) {
        let mut a = self.at.lock().unwrap();
        if a.0 < 2 {
            a.0 = 2;
            self.turn.notify_all();
        }
    }
    pub fn finished(&self) {
        let mut a = self.at.lock().unwrap();
        while a.0 != 3 {
            a = self.turn.wait(a).unwrap();
        }
    }
    /// It went on before it was told to.
    pub fn gave_way(&self) -> bool {
        self.at.lock().unwrap().1
    }
}

thread_local! {
    static STOP: Cell<(usize, *const Gate)> = const { Cell::new((0, std::ptr::null())) };
    static ASKED: Cell<usize> = const { Cell::new(0) };
}
fn point() {
    let _ = ASKED.try_with(|a| a.set(a.get().wrapping_add(1)));
    let _ = STOP.try_with(|s| {
        let (n, g) = s.get();
        if !g.is_null() {
            if n == 0 {
                s.set((0, std::ptr::null()));
                unsafe { (*g).stop() }
            } else {
                s.set((n - 1, g));
            }
        }
    });
}
/// How often `f` turns to the allocator.
pub fn requests<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let a = ASKED.with(|a| a.get());
    let r = f();
    (r, ASKED.with(|a| a.get()).wrapping_sub(a))
}
/// Run `f`, stopping at the gate before its n-th request.
pub fn stopping<T>(n: usize, g: &Gate, f: impl FnOnce() -> T) -> T {
    STOP.with(|s| s.set((n, g)));
    let r = f();
    STOP.with(|s| s.set((0, std::ptr::null())));
    r
}

pub const REQUEST_CAP: usize = 3 << 30;

fn add(n: usize) {
    if n > REQUEST_CAP {
        crate::engine::die_alloc()
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = BIGGEST.try_with(|b| {
        if n > b.get() {
            b.set(n)
        }
    });
    let _ = TOTAL.try_with(|b| b.set(b.get().wrapping_add(n)));
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Usage {
    pub peak: usize,
    pub biggest: usize,
    pub total: usize,
}

/// Memory used by `f` on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.with(|l| l.get());
    let outer = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(base));
    BIGGEST.with(|b| b.set(0));
    let t0 = TOTAL.with(|b| b.get());
    let r = f();
    let u = Usage {
        peak: PEAK.with(|p| p.get() - base).max(0) as usize,
        biggest: BIGGEST.with(|b| b.get()),
        total: TOTAL.with(|b| b.get()).wrapping_sub(t0),
    };
    PEAK.with(|p| p.set(outer.max(p.get())));
    (r, u)
}
