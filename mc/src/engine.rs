//! Exploration engine: enumerates numbered work items of a space on all cores, runs the oracle
//! on every case, and records what was covered. A case which panics, does not return, runs away
//! with memory or kills the process is a violation like a wrong answer: cases are noted in a
//! shared file before they run, which the parent process reads if this one dies.

use crate::json;
use crate::model::Cover;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::Instant;

#[derive(Clone, Debug, Default)]
pub struct Bad {
    pub expected: String,
    pub observed: String,
}

pub fn bad(expected: impl Into<String>, observed: impl Into<String>) -> Bad {
    Bad { expected: expected.into(), observed: observed.into() }
}

pub type Res = Result<(), Bad>;

/// What was covered
#[derive(Default)]
pub struct Stats {
    pub cover: Cover,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
}

impl Stats {
    pub fn outcome(&mut self, k: &str) {
        match self.outcomes.get_mut(k) {
            Some(n) => *n += 1,
            None => {
                self.outcomes.insert(k.to_owned(), 1);
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.cover.states.extend(o.cover.states);
        self.cover.transitions += o.cover.transitions;
        self.traces += o.traces;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
    }
}

pub struct Violation {
    pub order: (usize, u64),
    pub space: String,
    pub case: String,
    pub bad: Bad,
}

pub struct SpaceStat {
    pub name: String,
    pub cases: u64,
    pub secs: f64,
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub stats: Stats,
    pub spaces: Vec<SpaceStat>,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub known_seen: Vec<String>,
}

pub struct Ctx<'r> {
    pub st: Stats,
    cases: u64,
    order: (usize, u64),
    space: &'r str,
    slot: usize,
    found: Option<Violation>,
    samples: Vec<String>,
    sample_at: u64,
    known: &'r [String],
    known_seen: Vec<String>,
}

// ---- slots ------------------------------------------------------------------------------

const SLOTS: usize = 16;
const SLOT: usize = 16 << 20;
static SLOT_BASE: AtomicU64 = AtomicU64::new(0);
static SLOT_TID: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];

unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn gettid() -> i32;
}

pub fn open_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slot file");
    f.set_len((SLOTS * SLOT) as u64).expect("slot file");
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    SLOT_BASE.store(p as u64, SeqCst);
}

/// slot: u64 sequence number, u64 length (0 if idle), bytes
fn slot_ptr(i: usize) -> Option<*mut u8> {
    match SLOT_BASE.load(Relaxed) {
        0 => None,
        b => Some(unsafe { (b as *mut u8).add(i * SLOT) }),
    }
}

fn slot_begin(i: usize, case: &str) {
    if let Some(p) = slot_ptr(i) {
        let n = case.len().min(SLOT - 17);
        unsafe {
            std::ptr::copy_nonoverlapping(case.as_ptr(), p.add(16), n);
            let seq = &*(p as *const AtomicU64);
            seq.store(seq.load(Relaxed) + 1, Relaxed);
            (*(p.add(8) as *const AtomicU64)).store(n as u64 + 1, Release);
        }
    }
}

fn slot_end(i: usize) {
    if let Some(p) = slot_ptr(i) {
        unsafe { (*(p.add(8) as *const AtomicU64)).store(0, Release) }
    }
}

fn slot_read(i: usize) -> Option<(u64, String)> {
    let p = slot_ptr(i)?;
    unsafe {
        let seq = (*(p as *const AtomicU64)).load(Acquire);
        let n = (*(p.add(8) as *const AtomicU64)).load(Acquire);
        if n == 0 {
            return None;
        }
        let b = std::slice::from_raw_parts(p.add(16), n as usize - 1);
        Some((seq, String::from_utf8_lossy(b).into_owned()))
    }
}

/// The cases which were in progress, from the file of a process which died
pub fn read_slots(path: &str) -> Vec<String> {
    use std::os::unix::fs::FileExt;
    let Ok(f) = std::fs::File::open(path) else { return vec![] };
    let mut out = Vec::new();
    for i in 0..SLOTS {
        let mut h = [0u8; 16];
        if f.read_exact_at(&mut h, (i * SLOT) as u64).is_err() {
            break;
        }
        let n = u64::from_le_bytes(h[8..].try_into().unwrap()) as usize;
        if n > 0 && n <= SLOT - 16 {
            let mut b = vec![0u8; n - 1];
            if f.read_exact_at(&mut b, (i * SLOT + 16) as u64).is_ok() {
                out.push(String::from_utf8_lossy(&b).into_owned());
            }
        }
    }
    out
}

// ---- panics -----------------------------------------------------------------------------

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static EXPECT_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic at {at}: {m}");
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("panic at {at}: {m}")));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Runs the code under test, turning a panic into a violation
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Bad> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| bad("an answer", last_panic()))
}

// ---- watchdog ---------------------------------------------------------------------------

fn task_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let v: Vec<&str> = r.split(' ').collect();
    Some((v[11].parse::<f64>().ok()? + v[12].parse::<f64>().ok()?) / 100.0)
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |p| p * 4096 >> 20)
}

const CPU_LIMIT: f64 = 25.0;
const WALL_LIMIT: f64 = 150.0;
const RSS_LIMIT_MB: u64 = 14_000;

/// Calls back with the case (and what is wrong) which does not return
pub fn watchdog(on_stuck: impl Fn(String, String) + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, Instant, f64)> = vec![(0, Instant::now(), 0.0); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let over = rss_mb() > RSS_LIMIT_MB;
            let mut oldest: Option<(Instant, String)> = None;
            for i in 0..SLOTS {
                let Some(p) = slot_ptr(i) else { return };
                let (seq, len) = unsafe {
                    ((*(p as *const AtomicU64)).load(Acquire), (*(p.add(8) as *const AtomicU64)).load(Acquire))
                };
                if len == 0 {
                    continue;
                }
                let cpu = || task_cpu(SLOT_TID[i].load(Relaxed)).unwrap_or(0.0);
                if seen[i].0 != seq {
                    seen[i] = (seq, Instant::now(), cpu());
                    continue;
                }
                let wall = seen[i].1.elapsed().as_secs_f64();
                if over && oldest.as_ref().is_none_or(|o| seen[i].1 < o.0) {
                    oldest = slot_read(i).map(|c| (seen[i].1, c.1));
                }
                if wall > CPU_LIMIT && (cpu() - seen[i].2 > CPU_LIMIT || wall > WALL_LIMIT) {
                    if let Some((s2, case)) = slot_read(i) {
                        if s2 == seq {
                            on_stuck(case, format!("no answer within {wall:.0} s"));
                        }
                    }
                }
            }
            if over {
                if let Some((_, case)) = oldest {
                    on_stuck(case, format!("memory grows beyond {RSS_LIMIT_MB} MB"));
                }
            }
        }
    });
}

static SURVEY: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var_os("MC_SURVEY").is_some());

// ---- exploration ------------------------------------------------------------------------

impl Ctx<'_> {
    /// Runs the oracle on one case. `case` must be what `one` of the property takes.
    pub fn case(&mut self, case: &str, f: impl FnOnce(&mut Stats) -> Res) {
        if self.found.is_some() {
            return;
        }
        self.cases += 1;
        slot_begin(self.slot, case);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut self.st)));
        slot_end(self.slot);
        let b = match r {
            Ok(Ok(())) => {
                if self.cases == self.sample_at {
                    self.sample_at = self.sample_at * 17 + 3;
                    if self.samples.len() < 6 {
                        let short: String = case.chars().take(300).collect();
                        self.samples.push(if short.len() < case.len() { format!("{short} ... ({} bytes)", case.len()) } else { short });
                    }
                }
                return;
            }
            Ok(Err(b)) => b,
            Err(_) => bad("an answer", last_panic()),
        };
        // for development: counts all violations by kind, rather than stopping at the first
        if *SURVEY {
            self.st.outcome(&format!("SURVEY {} BUT {}", b.expected, b.observed));
            self.st.outcomes.entry(format!("SURVEY {} BUT {} eg {case}", b.expected, b.observed)).or_default();
            return;
        }
        if self.known.iter().any(|k| k == case) {
            self.known_seen.push(case.to_owned());
            return;
        }
        self.found = Some(Violation {
            order: self.order,
            space: self.space.to_owned(),
            case: case.to_owned(),
            bad: b,
        });
    }

    pub fn stop(&self) -> bool {
        self.found.is_some()
    }
}

impl Run {
    /// Explores the whole space of `n` work items
    pub fn space(&mut self, name: &str, n: u64, f: impl Fn(u64, &mut Ctx<'_>) + Sync) {
        if !self.violations.is_empty() {
            return;
        }
        let t0 = Instant::now();
        let idx = self.spaces.len();
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let aborted = AtomicBool::new(false);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 4096);
        let out: Mutex<Vec<(Stats, u64, Option<Violation>, Vec<String>, Vec<String>)>> = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for slot in 0..self.threads {
                let (next, best, out, f, aborted) = (&next, &best, &out, &f, &aborted);
                let known = &self.known[..];
                s.spawn(move || {
                    SLOT_TID[slot].store(unsafe { gettid() } as u64, SeqCst);
                    let mut ctx = Ctx {
                        st: Stats::default(),
                        cases: 0,
                        order: (idx, 0),
                        space: name,
                        slot,
                        found: None,
                        samples: vec![],
                        sample_at: 1 + slot as u64,
                        known,
                        known_seen: vec![],
                    };
                    'all: loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= n || a > best.load(Relaxed) {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            ctx.order = (idx, i);
                            let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut ctx)));
                            if r.is_err() {
                                eprintln!("harness panic in space {name} item {i}: {}", last_panic());
                                aborted.store(true, SeqCst);
                                break 'all;
                            }
                            if ctx.found.is_some() {
                                best.fetch_min(i, SeqCst);
                                break 'all;
                            }
                        }
                    }
                    out.lock().unwrap().push((ctx.st, ctx.cases, ctx.found, ctx.samples, ctx.known_seen));
                });
            }
        });
        if aborted.load(SeqCst) {
            std::process::exit(2);
        }
        let mut cases = 0;
        let mut vs: Vec<Violation> = Vec::new();
        let mut taken = 0;
        for (st, c, v, sm, ks) in out.into_inner().unwrap() {
            cases += c;
            self.stats.merge(st);
            vs.extend(v);
            for k in ks {
                if !self.known_seen.contains(&k) {
                    self.known_seen.push(k);
                }
            }
            for s in sm {
                if taken < 2 {
                    self.samples.push(format!("{name}: {s}"));
                    taken += 1;
                }
            }
        }
        vs.sort_by_key(|v| v.order);
        self.violations.extend(vs.into_iter().next());
        self.spaces.push(SpaceStat { name: name.to_owned(), cases, secs: t0.elapsed().as_secs_f64() });
    }

    pub fn report(&self) -> String {
        let mut o = String::from("{");
        let f = |o: &mut String, k: &str, v: String| {
            if o.len() > 1 {
                o.push(',');
            }
            o.push_str(&json::s(k));
            o.push(':');
            o.push_str(&v);
        };
        f(&mut o, "states", self.stats.cover.states.len().to_string());
        f(&mut o, "transitions", self.stats.cover.transitions.to_string());
        f(&mut o, "traces", self.stats.traces.to_string());
        f(&mut o, "outcomes", format!("{{{}}}", self.stats.outcomes.iter()
            .map(|(k, v)| format!("{}:{v}", json::s(k))).collect::<Vec<_>>().join(",")));
        f(&mut o, "spaces", format!("{{{}}}", self.spaces.iter()
            .map(|s| format!("{}:{{\"cases\":{},\"seconds\":{:.2}}}", json::s(&s.name), s.cases, s.secs))
            .collect::<Vec<_>>().join(",")));
        f(&mut o, "samples", format!("[{}]", self.samples.iter().map(|s| json::s(s)).collect::<Vec<_>>().join(",")));
        f(&mut o, "notes", format!("[{}]", self.notes.iter().map(|s| json::s(s)).collect::<Vec<_>>().join(",")));
        f(&mut o, "known", format!("[{}]", self.known_seen.iter().map(|s| json::s(s)).collect::<Vec<_>>().join(",")));
        f(&mut o, "violations", format!("[{}]", self.violations.iter()
            .map(|v| format!("{{\"space\":{},\"case\":{},\"expected\":{},\"observed\":{}}}",
                json::s(&v.space), json::s(&v.case), json::s(&v.bad.expected), json::s(&v.bad.observed)))
            .collect::<Vec<_>>().join(",")));
        o.push('}');
        o
    }
}
