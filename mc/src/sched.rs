//! A controlled scheduler for two analyses on two threads.  The code under
//! test needs no hooks: every allocation it makes is a point at which the
//! scheduler may switch to the other thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub struct Points;

#[global_allocator]
static ALLOCATOR: Points = Points;

thread_local! {
    static HOOK: Cell<Option<(&'static Sched, usize)>> = const { Cell::new(None) };
}

unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        unsafe { System.realloc(p, l, n) }
    }
}

#[inline]
fn point() {
    // Not while the thread is ending.
    if let Ok(Some((s, me))) = HOOK.try_with(|h| h.get()) {
        HOOK.set(None);
        s.step(me);
        HOOK.set(Some((s, me)));
    }
}

/// How long a thread may run without reaching a point before it is taken for
/// blocked (by a lock that the other one holds).
const BLOCKED: Duration = Duration::from_millis(100);

struct State {
    /// the thread that may run
    turn: usize,
    done: [bool; 2],
    started: usize,
    /// points reached, and those at which to switch
    steps: u32,
    switches: &'static [u32],
    /// switches made because a thread was blocked
    forced: u32,
}
pub struct Sched {
    state: Mutex<State>,
    cv: Condvar,
}

impl Sched {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait(&self, mut s: MutexGuard<'_, State>, me: usize) {
        let mut seen = s.steps;
        while s.turn != me {
            let (g, t) = self
                .cv
                .wait_timeout(s, BLOCKED)
                .unwrap_or_else(|e| e.into_inner());
            s = g;
            if s.turn != me && t.timed_out() {
                if s.steps == seen && s.started == 2 {
                    s.turn = me;
                    s.forced += 1;
                }
                seen = s.steps;
            }
        }
    }
    fn step(&self, me: usize) {
        let mut s = self.lock();
        if s.turn != me {
            // Was taken for blocked.
            return self.wait(s, me);
        }
        s.steps += 1;
        if s.switches.first() == Some(&s.steps) {
            s.switches = &s.switches[1..];
            if !s.done[1 - me] {
                s.turn = 1 - me;
                self.cv.notify_all();
                self.wait(s, me);
            }
        }
    }
    fn begin(&self, me: usize) {
        let mut s = self.lock();
        s.started += 1;
        self.wait(s, me);
    }
    fn end(&self, me: usize) {
        let mut s = self.lock();
        s.done[me] = true;
        if s.turn == me {
            s.turn = 1 - me;
        }
        self.cv.notify_all();
    }
}

/// Runs two jobs, the first one first, switching at the given points.
/// Gives the results (None after a panic) and the number of points.
pub fn two<X: Send + 'static>(
    switches: &[u32],
    jobs: [Box<dyn FnOnce() -> X + Send>; 2],
) -> ([Option<X>; 2], u32) {
    let sw: &'static mut [u32] = switches.to_vec().leak();
    let sched: &'static mut Sched = Box::leak(Box::new(Sched {
        state: Mutex::new(State {
            turn: 0,
            done: [false; 2],
            started: 0,
            steps: 0,
            switches: &[],
            forced: 0,
        }),
        cv: Condvar::new(),
    }));
    let (psw, psched): (*mut [u32], *mut Sched) = (sw, sched);
    let shared: &'static Sched = unsafe { &*psched };
    shared.lock().switches = unsafe { &*psw };
    let hs = {
        let mut me = 0;
        jobs.map(|job| {
            let id = me;
            me += 1;
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    shared.begin(id);
                    HOOK.set(Some((shared, id)));
                    let r = std::panic::catch_unwind(
                        std::panic::AssertUnwindSafe(job),
                    );
                    HOOK.set(None);
                    shared.end(id);
                    r.ok()
                })
                .expect("thread")
        })
    };
    let out = hs.map(|h| h.join().ok().flatten());
    let steps = shared.lock().steps;
    // Both threads have ended.
    unsafe {
        drop(Box::from_raw(psched));
        drop(Box::from_raw(psw));
    }
    (out, steps)
}
