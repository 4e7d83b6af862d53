//! The monitors: what is being run right now (for crashes), panics, memory, time, and the record of what was seen.
use crate::rng::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

// ---------------------------------------------------------------- memory

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static SUM: Cell<i64> = const { Cell::new(0) };
    static SUM_LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}
/// Counts the bytes each thread holds; ends the run with a violation when an operation exceeds its budget.
pub struct Counting;
fn note(d: i64) {
    let _ = LIVE.try_with(|l| {
        let n = l.get() + d;
        l.set(n);
        if d > 0 {
            ALLOCS.with(|a| a.set(a.get() + 1));
            let sum = SUM.with(|s| s.get()) + d;
            SUM.with(|s| s.set(sum));
            if sum > SUM_LIMIT.with(|l| l.get()) {
                SUM_LIMIT.with(|l| l.set(i64::MAX));
                over_work(sum);
            }
            if n > PEAK.with(|p| p.get()) {
                PEAK.with(|p| p.set(n));
                if n > LIMIT.with(|p| p.get()) {
                    LIMIT.with(|p| p.set(i64::MAX));
                    over_budget(n, d);
                }
            }
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// Run `f` with at most `budget` bytes more than are live now. Returns (result, peak extra bytes).
pub fn with_budget<T>(budget: i64, f: impl FnOnce() -> T) -> (T, i64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let old = LIMIT.with(|l| l.replace(base.saturating_add(budget)));
    let r = f();
    LIMIT.with(|l| l.set(old));
    (r, PEAK.with(|p| p.get()) - base)
}
/// The same, and at most `work` bytes asked for in all.
pub fn with_budgets<T>(budget: i64, work: i64, f: impl FnOnce() -> T) -> (T, i64, i64) {
    let base = SUM.with(|s| s.get());
    let old = SUM_LIMIT.with(|l| l.replace(base.saturating_add(work)));
    let (r, peak) = with_budget(budget, f);
    SUM_LIMIT.with(|l| l.set(old));
    (r, peak, SUM.with(|s| s.get()) - base)
}
pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn alloc_count() -> u64 {
    ALLOCS.with(|l| l.get())
}
fn over_budget(n: i64, d: i64) -> ! {
    let slot = SLOT.with(|s| s.get());
    let case = read_slot(slot);
    fatal("memory", &format!("an operation holds {n} bytes after asking for {d} more: over its budget"), &case)
}

fn over_work(n: i64) -> ! {
    let slot = SLOT.with(|s| s.get());
    let case = read_slot(slot);
    fatal("work", &format!("an operation has asked for {n} bytes of memory in all: the work is not in proportion to its input"), &case)
}

// ---------------------------------------------------------------- current case

const SLOT_SIZE: usize = 64 * 1024;
const SLOTS: usize = 64;
extern "C" {
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
}
static SLOT_BASE: AtomicUsize = AtomicUsize::new(0);
static SLOT_SEQ: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static SLOT_CLOCK: [AtomicI64; SLOTS] = [const { AtomicI64::new(i64::MIN) }; SLOTS];
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
static SLOT_USED: [AtomicBool; SLOTS] = [const { AtomicBool::new(false) }; SLOTS];

/// The shared file that says what each thread is running; the driver reads it when the process dies.
pub fn open_slots(path: &str) {
    if cfg!(miri) {
        return;
    }
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len((SLOT_SIZE * SLOTS) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT_SIZE * SLOTS, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    SLOT_BASE.store(p as usize, SeqCst);
}
pub fn enter_thread() {
    let s = (0..SLOTS).find(|i| !SLOT_USED[*i].swap(true, SeqCst)).expect("a free slot");
    SLOT.with(|x| x.set(s));
    if cfg!(miri) {
        return;
    }
    let mut c = 0i32;
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut c);
    }
    SLOT_CLOCK[s].store(c as i64, SeqCst);
}
pub fn leave_thread() {
    SLOT.with(|s| {
        let i = s.replace(usize::MAX);
        if i != usize::MAX {
            SLOT_CLOCK[i].store(i64::MIN, SeqCst);
            SLOT_USED[i].store(false, SeqCst);
        }
    });
}
/// Say what this thread is about to do: a line of text and the input bytes.
pub fn current(what: &str, input: &[u8]) {
    let i = SLOT.with(|s| s.get());
    if i == usize::MAX {
        return;
    }
    SLOT_SEQ[i].fetch_add(1, Relaxed);
    let base = SLOT_BASE.load(Relaxed);
    if base == 0 {
        return;
    }
    // [u32 len of text][u32 full len of input][u32 stored len][text][input]
    unsafe {
        let p = (base + i * SLOT_SIZE) as *mut u8;
        let w = what.as_bytes();
        let wl = w.len().min(4000);
        let il = input.len().min(SLOT_SIZE - 12 - 4000);
        p.cast::<u32>().write(wl as u32);
        p.add(4).cast::<u32>().write(input.len() as u32);
        p.add(8).cast::<u32>().write(il as u32);
        std::ptr::copy_nonoverlapping(w.as_ptr(), p.add(12), wl);
        std::ptr::copy_nonoverlapping(input.as_ptr(), p.add(12 + wl), il);
    }
}
/// The operation is over: no case is current.
pub fn idle() {
    let i = SLOT.with(|s| s.get());
    if i != usize::MAX {
        SLOT_SEQ[i].fetch_add(1, Relaxed);
        let base = SLOT_BASE.load(Relaxed);
        if base != 0 {
            unsafe { ((base + i * SLOT_SIZE) as *mut u32).write(0) }
        }
    }
}
fn read_slot(i: usize) -> String {
    let base = SLOT_BASE.load(Relaxed);
    if base == 0 || i == usize::MAX {
        return "(no case recorded)".into();
    }
    unsafe {
        let p = (base + i * SLOT_SIZE) as *const u8;
        let wl = p.cast::<u32>().read() as usize;
        let full = p.add(4).cast::<u32>().read() as usize;
        let il = p.add(8).cast::<u32>().read() as usize;
        let w = std::slice::from_raw_parts(p.add(12), wl.min(4000));
        let inp = std::slice::from_raw_parts(p.add(12 + wl), il.min(SLOT_SIZE - 4012));
        format!("{} input({} bytes): {}", String::from_utf8_lossy(w), full, show_bytes(inp))
    }
}
pub fn show_bytes(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if !s.chars().any(|c| c.is_control() && c != '\n' && c != '\t') => format!("{:?}", crate::model::clip(s, 3000)),
        _ => {
            let mut o = String::from("hex ");
            for x in b.iter().take(1500) {
                let _ = write!(o, "{x:02x}");
            }
            o
        }
    }
}

/// CPU seconds one operation may take before it counts as not returning.
pub const HANG_CPU: f64 = 25.0;
/// Watches each thread's CPU clock: an operation that burns `HANG_CPU` seconds without ending does not return.
pub fn watchdog() {
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(|| {
        let mut seen: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for i in 0..SLOTS {
                let c = SLOT_CLOCK[i].load(SeqCst);
                if c == i64::MIN {
                    continue;
                }
                let base = SLOT_BASE.load(Relaxed);
                if base == 0 || unsafe { ((base + i * SLOT_SIZE) as *const u32).read_volatile() } == 0 {
                    seen[i].0 = u64::MAX;
                    continue;
                }
                let mut t = [0i64; 2];
                if unsafe { clock_gettime(c as i32, &mut t) } != 0 {
                    continue;
                }
                let cpu = t[0] as f64 + t[1] as f64 / 1e9;
                let q = SLOT_SEQ[i].load(Relaxed);
                if seen[i].0 != q {
                    seen[i] = (q, cpu);
                } else if cpu - seen[i].1 > HANG_CPU {
                    let case = read_slot(i);
                    fatal("hang", &format!("an operation has not returned after {HANG_CPU} s of CPU time"), &case);
                }
            }
        }
    });
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| p.set(Some(format!("{msg} at {loc}"))));
    }));
}
/// Run code under test: Err holds the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| {
        let m = LAST_PANIC.with(|p| p.take()).unwrap_or_default();
        if m.starts_with("harness:") {
            eprintln!("HARNESS ERROR: {m}");
            std::process::exit(3);
        }
        m
    })
}

// ---------------------------------------------------------------- the run

pub struct Run {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub verif: String,
    pub threads: usize,
    pub start: std::time::Instant,
    /// stop making cases after this many seconds
    pub secs: f64,
    pub only: Option<String>,
}
static RUN: std::sync::OnceLock<Run> = std::sync::OnceLock::new();
pub fn run() -> &'static Run {
    RUN.get().expect("run")
}
pub fn set_run(r: Run) {
    let _ = RUN.set(r);
}
impl Run {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn left(&self) -> f64 {
        self.secs - self.start.elapsed().as_secs_f64()
    }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub sample_keys: HashSet<String>,
    pub violations: Vec<(String, String)>,
    pub notes: Vec<String>,
}
static TOTAL: Mutex<Option<Stats>> = Mutex::new(None);
static STOP: AtomicBool = AtomicBool::new(false);
static NVIOL: AtomicUsize = AtomicUsize::new(0);

/// One worker's record.
pub struct Ctx {
    pub st: Stats,
    pub shard: usize,
}
impl Ctx {
    pub fn new(shard: usize) -> Ctx {
        Ctx { st: Stats::default(), shard }
    }
    /// One evaluation; `key` identifies it, `nontrivial` by the check's rule.
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.st.evals += 1;
        if nontrivial && self.st.distinct.len() < 4_000_000 {
            self.st.distinct.insert(key);
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.st.counts.get_mut(k) {
            *c += n;
        } else {
            self.st.counts.insert(k.to_owned(), n);
        }
    }
    pub fn sample(&mut self, key: &str, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 12 && !self.st.sample_keys.contains(key) {
            self.st.sample_keys.insert(key.to_owned());
            self.st.samples.push(crate::model::clip(&f(), 700));
        }
    }
    pub fn violation(&mut self, kind: &str, detail: String) {
        let n = NVIOL.fetch_add(1, SeqCst);
        if n < 20 {
            eprintln!("violation [{kind}]: {}", crate::model::clip(&detail, 3000));
        }
        if self.st.violations.len() < 50 {
            self.st.violations.push((kind.to_owned(), detail));
        }
        if n > 60 {
            STOP.store(true, SeqCst);
        }
    }
    pub fn stop(&self) -> bool {
        STOP.load(Relaxed)
    }
}
pub fn merge(c: Ctx) {
    let mut t = TOTAL.lock().unwrap();
    let t = t.get_or_insert_with(Stats::default);
    t.evals += c.st.evals;
    t.distinct.extend(c.st.distinct);
    for (k, v) in c.st.counts {
        *t.counts.entry(k).or_default() += v;
    }
    for s in c.st.samples {
        if t.samples.len() < 24 {
            t.samples.push(s);
        }
    }
    t.violations.extend(c.st.violations);
    t.notes.extend(c.st.notes);
}
/// Run `f(shard)` on every worker thread; the shards are deterministic, whatever the number of threads.
pub fn parallel(shards: usize, f: impl Fn(&mut Ctx, usize) + Sync) {
    let next = AtomicUsize::new(0);
    let nthreads = run().threads.min(shards).max(1);
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            let next = &next;
            let f = &f;
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    enter_thread();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= shards || STOP.load(SeqCst) {
                            break;
                        }
                        let mut c = Ctx::new(i);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c, i)));
                        merge(c);
                        if r.is_err() {
                            eprintln!("HARNESS ERROR: worker panicked");
                            std::process::exit(3);
                        }
                    }
                    leave_thread();
                })
                .unwrap();
        }
    });
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn replay_path(kind: &str, detail: &str) -> String {
    let r = run();
    let dir = format!("{}/replays", r.verif);
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{}-{:016x}.txt", r.prop, hash_bytes(detail.as_bytes()));
    let _ = std::fs::write(
        &p,
        format!(
            "property: {}\nkind: {kind}\nrerun: cd {} && VERIF_SEED={} VERIF_TIER={} ./check {}\n\n{detail}\n",
            r.prop, r.verif, r.seed, r.tier, r.prop
        ),
    );
    p
}
static FATAL: AtomicBool = AtomicBool::new(false);
/// A violation after which the process cannot go on.
pub fn fatal(kind: &str, msg: &str, case: &str) -> ! {
    if FATAL.swap(true, SeqCst) {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
        }
    }
    let detail = format!("{msg}\n{case}");
    eprintln!("violation [{kind}]: {detail}");
    let p = replay_path(kind, &detail);
    let st = Stats { evals: 1, violations: vec![(kind.into(), detail.clone())], samples: vec![crate::model::clip(&detail, 600)], ..Default::default() };
    write_evidence(&st, "the run ended at the violation: counts are not complete");
    println!("VIOLATION property={} replay={}", run().prop, p);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}
fn write_evidence(t: &Stats, rule: &str) {
    let r = run();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [",
        jstr(&r.prop),
        jstr(&r.tier),
        r.seed,
        t.evals,
        t.distinct.len(),
        jstr(rule)
    );
    for (i, s) in t.samples.iter().enumerate() {
        let _ = write!(o, "{}\n   {}", if i > 0 { "," } else { "" }, jstr(s));
    }
    o.push_str("\n  ],\n  \"observed\": {");
    for (i, (k, v)) in t.counts.iter().enumerate() {
        let _ = write!(o, "{}\n   {}: {}", if i > 0 { "," } else { "" }, jstr(k), v);
    }
    let _ = write!(o, "\n  }}\n }},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", r.start.elapsed().as_secs_f64(), t.violations.len());
    let dir = format!("{}/evidence", r.verif);
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{}.json", r.prop), o).is_err() {
        eprintln!("HARNESS ERROR: cannot write evidence");
        std::process::exit(3);
    }
}
/// Write the evidence, print the verdict, end the process.
pub fn finish(rule: &str, min_evals: u64) -> ! {
    if FATAL.load(SeqCst) {
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
        }
    }
    let t = TOTAL.lock().unwrap().take().unwrap_or_default();
    write_evidence(&t, rule);
    let mut kinds: HashSet<String> = HashSet::new();
    for (k, d) in &t.violations {
        if kinds.insert(k.clone()) && kinds.len() <= 10 {
            let p = replay_path(k, d);
            println!("VIOLATION property={} replay={}", run().prop, p);
        }
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        run().prop,
        t.evals,
        t.distinct.len(),
        t.violations.len(),
        run().start.elapsed().as_secs_f64()
    );
    if !t.violations.is_empty() {
        std::process::exit(1);
    }
    if t.evals < min_evals {
        eprintln!("INCONCLUSIVE: only {} evaluations, {min_evals} needed", t.evals);
        std::process::exit(4);
    }
    std::process::exit(0);
}
/// Print the counts and the verdict for a driver that merges several runs, end the process.
pub fn report(mode: &str) -> ! {
    let t = TOTAL.lock().unwrap().take().unwrap_or_default();
    let mut o = format!("COUNTS {{\"evaluations\": {}, \"distinct\": {}, \"counts\": {{", t.evals, t.distinct.len());
    for (i, (k, v)) in t.counts.iter().enumerate() {
        let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, jstr(&format!("{mode}: {k}")), v);
    }
    println!("{o}}}}}");
    for x in &t.samples {
        println!("SAMPLE {}", jstr(x));
    }
    if let Some((k, d)) = t.violations.first() {
        println!("FOUND [{k}] {}", jstr(d));
        std::process::exit(1);
    }
    std::process::exit(0);
}
