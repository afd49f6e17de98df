//! Stateless model-checking engine.
//!
//! A harness is an ordinary function that asks its context `Cx` for every nondeterministic
//! decision (`choose`, `deviate`).  The engine enumerates the whole tree of decisions, depth
//! first, in parallel over disjoint subtrees; every complete execution runs the real code and is
//! compared with the reference model.  `deviate` is a choice whose non-default alternatives
//! consume one unit of the space's deviation budget, so a space is explored for *all* executions
//! with at most `dev` deviations.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    const K: u64 = 0x9E37_79B9_7F4A_7C15;
    h = (h ^ b.len() as u64).wrapping_mul(K);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        let mut a = [0u8; 8];
        a.copy_from_slice(c);
        h = (h.rotate_left(23) ^ u64::from_le_bytes(a)).wrapping_mul(K);
    }
    for &x in it.remainder() {
        h = (h.rotate_left(9) ^ x as u64).wrapping_mul(K);
    }
    h ^ (h >> 29)
}

pub struct Cx {
    prefix: Vec<u16>,
    pub trace: Vec<(u16, u16)>,
    dev_left: usize,
    pruned: bool,
    pub runs: u64,
    outcomes: BTreeMap<&'static str, u64>,
    states: IdSet,
    want_sample: bool,
    sample: Option<String>,
    diverged: bool,
    known: BTreeMap<String, u64>,
}

impl Cx {
    fn new() -> Cx {
        Cx {
            prefix: vec![],
            trace: vec![],
            dev_left: 0,
            pruned: false,
            runs: 0,
            outcomes: BTreeMap::new(),
            states: IdSet::default(),
            want_sample: false,
            sample: None,
            diverged: false,
            known: BTreeMap::new(),
        }
    }
    fn reset(&mut self, dev: usize) {
        self.trace.clear();
        self.dev_left = dev;
        self.pruned = false;
        self.sample = None;
    }
    /// A free choice among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 65536, "bad arity {}", n);
        if n == 1 {
            return 0;
        }
        let i = self.trace.len();
        let k = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        if k >= n {
            self.diverged = true;
            panic!("replay divergence: choice {} of {} at {}", k, n, i);
        }
        self.trace.push((k as u16, n as u16));
        k
    }
    /// A choice whose alternatives other than 0 cost one deviation.
    pub fn deviate(&mut self, n: usize) -> usize {
        if n <= 1 || self.dev_left == 0 {
            return 0;
        }
        let k = self.choose(n);
        if k > 0 {
            self.dev_left -= 1;
        }
        k
    }
    /// Lower the number of deviations this execution may still make.
    pub fn at_most(&mut self, n: usize) {
        self.dev_left = self.dev_left.min(n);
    }
    /// `free` ordinary alternatives followed by `costly` ones that consume one deviation each.
    pub fn choose2(&mut self, free: usize, costly: usize) -> usize {
        let n = if self.dev_left > 0 { free + costly } else { free };
        let k = self.choose(n);
        if k >= free {
            self.dev_left -= 1;
        }
        k
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn pick_dev<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.deviate(xs.len());
        &xs[i]
    }
    /// The decisions taken do not denote a case of the space; not an execution.
    pub fn prune(&mut self) -> Res {
        self.pruned = true;
        Ok(())
    }
    /// Record the canonical model state this execution reached.
    pub fn state(&mut self, parts: &[&[u8]]) {
        let mut h = 0x1234_5678_9abc_def1u64;
        for p in parts {
            h = hash_bytes(h, p);
        }
        if self.states.len() < 12_000_000 {
            self.states.insert(h);
        }
    }
    /// A failure that the committed findings file may list under `key`: listed ones are counted,
    /// everything else is a violation.
    pub fn known(&mut self, id: &str, key: &str, msg: String) -> Res {
        if FINDINGS.get_or_init(crate::runner::known_findings).iter().any(|(i, k, _)| i == id && k == key) {
            *self.known.entry(key.to_string()).or_insert(0) += 1;
            Ok(())
        } else {
            Err(msg)
        }
    }
    pub fn outcome(&mut self, s: &'static str) {
        *self.outcomes.entry(s).or_insert(0) += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 400 {
                let mut i = 400;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
    /// Run code under test; a panic becomes `Err`.
    /// The same on a thread with an ordinary stack (2 MB, what Rust gives to threads).
    pub fn guard_small<T: Send>(&mut self, f: impl FnOnce() -> T + Send) -> Result<T, String> {
        self.runs += 1;
        std::thread::scope(|s| {
            let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone())));
            h.expect("a thread").join().expect("caught")
        })
    }
    pub fn guard<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.runs += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
        }
    }
}

static FINDINGS: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static SLOT: Cell<usize> = Cell::new(0);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, msg));
    }));
}

pub struct Space {
    pub name: &'static str,
    pub dev: usize,
    pub f: Box<dyn Fn(&mut Cx) -> Res + Sync + Send>,
}

pub fn space(name: &'static str, dev: usize, f: impl Fn(&mut Cx) -> Res + Sync + Send + 'static) -> Space {
    Space { name, dev, f: Box::new(f) }
}

#[derive(Default, Debug)]
pub struct Report {
    pub name: String,
    pub dev: usize,
    pub executions: u64,
    pub pruned: u64,
    pub edges: u64,
    pub states: u64,
    pub runs: u64,
    pub max_depth: usize,
    pub complete: bool,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub violation: Option<(Vec<u16>, String)>,
    pub wall: f64,
}

// ---- shared slots, read by the parent after a crash -----------------------------------------

pub const SLOT_BYTES: usize = 4096;
pub const NSLOTS: usize = 65;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn _exit(code: i32) -> !;
}

static SHM: AtomicUsize = AtomicUsize::new(0);

pub fn open_slots(path: &str) {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("slot file");
    f.set_len((SLOT_BYTES * NSLOTS) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT_BYTES * NSLOTS, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    SHM.store(p as usize, SeqCst);
}

fn slot_ptr(i: usize) -> *mut u8 {
    let b = SHM.load(Relaxed);
    if b == 0 {
        return std::ptr::null_mut();
    }
    (b + i * SLOT_BYTES) as *mut u8
}

static SPACE_IDX: AtomicUsize = AtomicUsize::new(0);

fn slot_begin(prefix: &[u16]) {
    let p = slot_ptr(SLOT.with(|s| s.get()) + 1);
    if p.is_null() {
        return;
    }
    unsafe {
        let w = p as *mut u32;
        let n = prefix.len().min(1900);
        std::ptr::write_volatile(w, 0);
        std::ptr::write_volatile(w.add(1), SPACE_IDX.load(Relaxed) as u32);
        std::ptr::write_volatile(w.add(2), n as u32);
        std::ptr::copy_nonoverlapping(prefix.as_ptr() as *const u8, p.add(32), n * 2);
        std::ptr::write_volatile(w, 1);
    }
    BEAT[SLOT.with(|s| s.get())].store(now_ms(), Relaxed);
}
fn slot_end() {
    let p = slot_ptr(SLOT.with(|s| s.get()) + 1);
    if p.is_null() {
        return;
    }
    unsafe { std::ptr::write_volatile(p as *mut u32, 0) };
    BEAT[SLOT.with(|s| s.get())].store(0, Relaxed);
}

#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
static BEAT: [AtomicU64; 64] = [Z; 64];

fn now_ms() -> u64 {
    use std::time::{SystemTime, UNIX_EPOCH};
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}

pub const EXIT_ALLOC: i32 = 86;
pub const EXIT_HANG: i32 = 87;

/// Die because the current execution of this thread asked for an absurd allocation.
pub fn die_alloc() -> ! {
    unsafe {
        let p = slot_ptr(0);
        if !p.is_null() {
            std::ptr::write_volatile(p as *mut u32, 1 + SLOT.with(|s| s.get()) as u32);
        }
        _exit(EXIT_ALLOC)
    }
}

pub fn start_watchdog(limit_ms: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms();
        for (i, b) in BEAT.iter().enumerate() {
            let t = b.load(Relaxed);
            if t != 0 && now > t + limit_ms {
                unsafe {
                    let p = slot_ptr(0);
                    if !p.is_null() {
                        std::ptr::write_volatile(p as *mut u32, 1 + i as u32);
                    }
                    _exit(EXIT_HANG)
                }
            }
        }
    });
}

/// Decode the slot file: (offending slot if recorded, active traces as (slot, space, choices)).
pub fn read_slots(path: &str) -> (Option<usize>, Vec<(usize, usize, Vec<u16>)>) {
    let d = std::fs::read(path).unwrap_or_default();
    let mut out = vec![];
    if d.len() < SLOT_BYTES * NSLOTS {
        return (None, out);
    }
    let u = |o: usize| u32::from_le_bytes([d[o], d[o + 1], d[o + 2], d[o + 3]]);
    let off = u(0);
    for i in 0..NSLOTS - 1 {
        let b = (i + 1) * SLOT_BYTES;
        if u(b) == 1 {
            let n = u(b + 8) as usize;
            let v = (0..n).map(|k| u16::from_le_bytes([d[b + 32 + 2 * k], d[b + 33 + 2 * k]])).collect();
            out.push((i, u(b + 4) as usize, v));
        }
    }
    (if off > 0 { Some(off as usize - 1) } else { None }, out)
}

// ---- exploration -----------------------------------------------------------------------------

fn run_one(sp: &Space, cx: &mut Cx, prefix: &[u16]) -> Res {
    cx.prefix.clear();
    cx.prefix.extend_from_slice(prefix);
    cx.reset(sp.dev);
    slot_begin(prefix);
    let r = catch_unwind(AssertUnwindSafe(|| (sp.f)(cx)));
    slot_end();
    match r {
        Ok(r) => {
            if r.is_ok() && cx.trace.len() < prefix.len() {
                eprintln!("engine: replay of a prefix diverged in space {}", sp.name);
                std::process::exit(3);
            }
            r
        }
        Err(_) => {
            // a panic outside `guard` is a harness fault, never a verdict
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            eprintln!("engine: harness fault in space {}: {} (choices {:?})", sp.name, m, cx.trace);
            std::process::exit(3);
        }
    }
}

/// Replay one choice sequence.
pub fn replay(sp: &Space, choices: &[u16]) -> (Res, Vec<(u16, u16)>) {
    let mut cx = Cx::new();
    let r = run_one(sp, &mut cx, choices);
    (r, cx.trace.clone())
}

pub fn explore(idx: usize, sp: &Space, threads: usize, deadline: Instant) -> Report {
    let t0 = Instant::now();
    SPACE_IDX.store(idx, SeqCst);
    let mut rep = Report { name: sp.name.into(), dev: sp.dev, complete: true, ..Default::default() };
    // 1. split the tree into disjoint subtrees
    let mut tasks: Vec<Vec<u16>> = vec![vec![]];
    let mut cx = Cx::new();
    let mut violation: Option<(Vec<u16>, String)> = None;
    'split: for _round in 0..6 {
        if tasks.len() >= 64 * threads {
            break;
        }
        let mut next = vec![];
        let mut grew = false;
        for p in &tasks {
            let r = run_one(sp, &mut cx, p);
            if let Err(m) = r {
                violation = Some((cx.trace.iter().map(|x| x.0).collect(), m));
                break 'split;
            }
            if cx.trace.len() > p.len() {
                for k in 0..cx.trace[p.len()].1 {
                    let mut q = p.clone();
                    q.push(k);
                    next.push(q);
                }
                grew = true;
            } else {
                next.push(p.clone());
            }
        }
        tasks = next;
        if !grew {
            break;
        }
    }
    // 2. explore every subtree
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(violation.is_some());
    let timed_out = AtomicBool::new(false);
    let found: Mutex<Option<(Vec<u16>, String)>> = Mutex::new(violation);
    let acc: Mutex<Vec<(Cx, u64, u64, u64, usize, Vec<String>)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for th in 0..threads {
            let (next, stop, timed_out, found, acc, tasks) = (&next, &stop, &timed_out, &found, &acc, &tasks);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    SLOT.with(|x| x.set(th));
                    let mut cx = Cx::new();
                    let (mut execs, mut pruned, mut edges, mut depth) = (0u64, 0u64, 0u64, 0usize);
                    let mut samples = vec![];
                    'outer: loop {
                        let t = next.fetch_add(1, Relaxed);
                        if t >= tasks.len() || stop.load(Relaxed) {
                            break;
                        }
                        let root = tasks[t].len();
                        let mut prefix = tasks[t].clone();
                        let mut common = root.saturating_sub(1);
                        let mut nsub = 0u64;
                        loop {
                            cx.want_sample = nsub == 0 && samples.len() < 3 && t % 7 == 3;
                            let r = run_one(sp, &mut cx, &prefix);
                            nsub += 1;
                            if cx.pruned {
                                pruned += 1
                            } else {
                                execs += 1
                            }
                            edges += (cx.trace.len() - common.min(cx.trace.len())) as u64;
                            depth = depth.max(cx.trace.len());
                            if let Some(x) = cx.sample.take() {
                                samples.push(x)
                            }
                            if let Err(m) = r {
                                let tr: Vec<u16> = cx.trace.iter().map(|x| x.0).collect();
                                let mut f = found.lock().unwrap();
                                let better = match &*f {
                                    None => true,
                                    Some((o, _)) => (tr.len(), &tr) < (o.len(), o),
                                };
                                if better {
                                    *f = Some((tr, m));
                                }
                                stop.store(true, Relaxed);
                                break 'outer;
                            }
                            let mut i = cx.trace.len();
                            let mut adv = false;
                            while i > root {
                                i -= 1;
                                if cx.trace[i].0 + 1 < cx.trace[i].1 {
                                    adv = true;
                                    break;
                                }
                            }
                            if !adv {
                                break;
                            }
                            prefix.clear();
                            prefix.extend(cx.trace[..i].iter().map(|x| x.0));
                            prefix.push(cx.trace[i].0 + 1);
                            common = i;
                            if nsub % 64 == 0 {
                                if stop.load(Relaxed) {
                                    break 'outer;
                                }
                                if Instant::now() > deadline {
                                    timed_out.store(true, Relaxed);
                                    stop.store(true, Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    acc.lock().unwrap().push((cx, execs, pruned, edges, depth, samples));
                })
                .unwrap();
        }
    });
    let mut all = IdSet::default();
    for (cx, e, p, ed, d, sm) in acc.into_inner().unwrap() {
        rep.executions += e;
        rep.pruned += p;
        rep.edges += ed;
        rep.max_depth = rep.max_depth.max(d);
        rep.runs += cx.runs;
        for (k, v) in &cx.outcomes {
            *rep.outcomes.entry(k).or_insert(0) += v;
        }
        for (k, v) in &cx.known {
            *rep.known.entry(k.clone()).or_insert(0) += v;
        }
        for x in sm {
            if rep.samples.len() < 4 {
                rep.samples.push(x)
            }
        }
        all.extend(cx.states.iter());
    }
    rep.states = all.len() as u64;
    rep.violation = found.into_inner().unwrap();
    rep.complete = !timed_out.load(SeqCst) && rep.violation.is_none();
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}
