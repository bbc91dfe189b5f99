//! Workers: evaluate cases, register the case under way where the supervisor
//! can see it, and collect counts and the first violation.

use crate::edits;
use crate::judge::{Bad, Cx, SEP, judge};
use std::collections::HashSet;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

pub const SLOT: usize = 4 << 20;
pub const WORKERS: usize = 8;

unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

pub fn limit_memory(bytes: u64) {
    // RLIMIT_AS
    let l = [bytes, bytes];
    unsafe { setrlimit(9, &l) };
    // RLIMIT_CORE
    let z = [0u64, 0];
    unsafe { setrlimit(4, &z) };
}

/// A file mapped into memory: what each worker is doing survives its death.
#[derive(Copy, Clone)]
pub struct Board(*mut u8);
unsafe impl Send for Board {}
unsafe impl Sync for Board {}

impl Board {
    pub fn open(path: &str) -> std::io::Result<Board> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)?;
        let n = SLOT * WORKERS;
        f.set_len(n as u64)?;
        let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Board(p))
    }
    fn seq(&self, w: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(w * SLOT) as *const AtomicU64) }
    }
    fn len(&self, w: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(w * SLOT + 8) as *const AtomicU64) }
    }
    fn data(&self, w: usize) -> *mut u8 {
        unsafe { self.0.add(w * SLOT + 16) }
    }
    /// An odd sequence number means that a case is under way.
    pub fn begin(&self, w: usize, text: &str) {
        let n = text.len().min(SLOT - 16);
        unsafe { std::ptr::copy_nonoverlapping(text.as_ptr(), self.data(w), n) };
        self.len(w).store(n as u64, Ordering::Relaxed);
        self.seq(w).fetch_add(1, Ordering::Release);
    }
    pub fn end(&self, w: usize) {
        self.seq(w).fetch_add(1, Ordering::Release);
    }
    pub fn state(&self, w: usize) -> u64 {
        self.seq(w).load(Ordering::Acquire)
    }
    pub fn text(&self, w: usize) -> String {
        let n = (self.len(w).load(Ordering::Relaxed) as usize).min(SLOT - 16);
        let b = unsafe { std::slice::from_raw_parts(self.data(w), n) };
        String::from_utf8_lossy(b).into_owned()
    }
}

/// Shared by the workers of one run.
pub struct Run {
    pub prop: u32,
    pub board: Board,
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    pub deadline: Instant,
    pub found: Mutex<Option<(String, Bad)>>,
    pub pairs: bool,
}

#[derive(Default, Clone)]
pub struct Tally {
    pub cases: u64,
    pub edges: u64,
    pub cx: Cx,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Tally {
    pub fn merge(&mut self, o: Tally) {
        self.cases += o.cases;
        self.edges += o.edges;
        self.cx.accepted += o.cx.accepted;
        self.cx.rejected += o.cx.rejected;
        self.cx.compared += o.cx.compared;
        self.states.extend(o.states);
        self.samples.extend(o.samples);
    }
}

pub struct Worker<'a> {
    pub run: &'a Run,
    pub id: usize,
    pub t: Tally,
}

pub fn hash<H: std::hash::Hash>(h: H) -> u64 {
    use std::hash::Hasher;
    // FNV: stable between runs.
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    h.hash(&mut f);
    f.finish()
}

impl<'a> Worker<'a> {
    pub fn new(run: &'a Run, id: usize) -> Worker<'a> {
        Worker {
            run,
            id,
            t: Tally::default(),
        }
    }

    pub fn stopped(&self) -> bool {
        if self.run.stop.load(Ordering::Relaxed) {
            return true;
        }
        if self.t.cases % 64 == 0 && Instant::now() > self.run.deadline {
            self.run.capped.store(true, Ordering::Relaxed);
            self.run.stop.store(true, Ordering::Relaxed);
            return true;
        }
        false
    }

    /// One case: the property is judged on the text (for the metamorphic
    /// property: on the text and each of its edits).
    pub fn case(&mut self, text: &str) {
        if self.run.prop == 6 && !text.contains(SEP) {
            let pairs = self.run.pairs;
            for e in edits::edits(text, pairs) {
                self.one(&format!("{text}{SEP}{e}"));
                if self.run.stop.load(Ordering::Relaxed) {
                    return;
                }
            }
        } else {
            self.one(text);
        }
    }

    fn one(&mut self, text: &str) {
        self.run.board.begin(self.id, text);
        let v = judge(self.run.prop, text, &mut self.t.cx);
        self.run.board.end(self.id);
        self.t.cases += 1;
        // A few samples, thinning out.
        if self.t.cases.is_power_of_two() && self.t.cases >= 64 {
            self.t.samples.push(text.chars().take(300).collect());
        }
        if let Err(b) = v {
            let mut f = self.run.found.lock().unwrap();
            // Prefer the shortest.
            if f.as_ref().is_none_or(|(t, _)| t.len() > text.len()) {
                *f = Some((text.to_owned(), b));
            }
            self.run.stop.store(true, Ordering::Relaxed);
        }
    }
}

/// Runs `f` on every item, in parallel; results are merged.
pub fn parallel<I: Sync>(
    run: &Run,
    items: &[I],
    f: impl Fn(&mut Worker, usize, &I) + Sync,
) -> Tally {
    let next = AtomicUsize::new(0);
    let mut total = Tally::default();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..WORKERS)
            .map(|id| {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = Worker::new(run, id);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= items.len() || w.stopped() {
                                break;
                            }
                            f(&mut w, i, &items[i]);
                        }
                        w.t
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            total.merge(h.join().expect("worker"));
        }
    });
    total
}
