//! sched explore SECONDS PREEMPTIONS: explores all schedules of pairs of operations on two and three
//! threads, with so many preemptions, each in a fresh process.
//! sched one CONFIGURATION: explores the schedules of one.
//!
//! A configuration is "operations before|of thread 1;of thread 2;…", each separated by commas.

mod rt;

use rt::{Shm, THREADS};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: rt::Bump = rt::Bump;

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
}

/// Runs `f` in a process of its own, which ends itself with rt::end
fn forked(shm: *mut Shm, f: impl FnOnce()) -> String {
    let s = unsafe { &mut *shm };
    s.status = 0;
    s.nconf = 0;
    s.points = 0;
    let p = unsafe { fork() };
    assert!(p >= 0, "fork");
    if p == 0 {
        unsafe { alarm(20) };
        rt::begin(shm);
        f();
        rt::end(4, "the child came to its end")
    }
    let mut st = 0;
    while unsafe { waitpid(p, &mut st, 0) } != p {}
    let msg = || String::from_utf8_lossy(&s.msg[..s.msg_len]).into_owned();
    match s.status {
        0 if st & 0x7f == 14 => "no answer within 20 s".into(),
        0 => format!("the process ended with status {st:#x}"),
        1 => String::new(),
        _ => msg(),
    }
}

fn run_op(op: &str, s: usize) -> String {
    // whether the expressions may be shared at all is another question
    let r = std::panic::catch_unwind(|| ops::run(op, unsafe { &*(s as *const ops::Shared) }));
    r.unwrap_or_else(|e| match (e.downcast_ref::<&str>(), e.downcast_ref::<String>()) {
        (Some(s), _) => format!("panic: {s}"),
        (_, Some(s)) => format!("panic: {s}"),
        _ => "panic".to_owned(),
    })
}

struct Config {
    text: String,
    before: Vec<usize>,
    threads: Vec<Vec<usize>>,
    conf: Vec<usize>,
}

struct Explorer {
    names: Vec<String>,
    expected: Vec<String>,
    shm: *mut Shm,
    schedules: u64,
    points: u64,
    switches: u64,
    accesses: u64,
    until: Instant,
}

fn shares(op: &str) -> bool {
    !op.starts_with("parse") && !op.starts_with("lex") && !op.starts_with("lookup") && !op.starts_with("values")
}

impl Explorer {
    fn new(seconds: u64) -> Self {
        let names = ops::names();
        let shm = rt::map(size_of::<Shm>(), true).cast::<Shm>();
        let mut x = Self { names, expected: vec![], shm, schedules: 0, points: 0, switches: 0, accesses: 0, until: Instant::now() + Duration::from_secs(seconds) };
        for n in &x.names {
            let mut e = String::new();
            let r = forked(shm, || {
                let s = Box::into_raw(Box::new(if shares(n) { ops::shared() } else { ops::Shared { exprs: vec![] } }));
                rt::end(5, &run_op(n, s as usize));
            });
            e.push_str(&r);
            x.expected.push(e);
        }
        x
    }

    fn config(&self, text: &str) -> Config {
        let list = |t: &str| -> Vec<usize> {
            t.split(',').filter(|o| !o.is_empty()).map(|o| self.names.iter().position(|n| n == o).unwrap_or_else(|| panic!("operation {o}"))).collect()
        };
        let (b, t) = text.split_once('|').expect("configuration");
        Config { text: text.to_owned(), before: list(b), threads: t.split(';').map(list).collect(), conf: vec![] }
    }

    /// One schedule: what is wrong with it
    fn run(&mut self, c: &Config, first: usize, plan: &[(u32, usize)]) -> Result<(), String> {
        let (names, expected, shm) = (&self.names, &self.expected, self.shm);
        let r = forked(shm, || {
            let used = || c.before.iter().chain(c.threads.iter().flatten());
            let s = if used().any(|o| shares(&names[*o])) { ops::shared() } else { ops::Shared { exprs: vec![] } };
            let s = Box::into_raw(Box::new(s)) as usize;
            let check = move |o: usize, place: String| {
                let got = run_op(&names[o], s);
                if got != expected[o] {
                    rt::end(2, &format!("{} {place}\texpected {:?}\tobserved {:?}", names[o], expected[o], got));
                }
            };
            let check: &(dyn Fn(usize, String) + Sync) = &check;
            // the threads end before this does
            let check: &'static (dyn Fn(usize, String) + Sync) = unsafe { std::mem::transmute(check) };
            for o in &c.before {
                check(*o, "before the threads".into());
            }
            let programs = c
                .threads
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    let p = p.clone();
                    Box::new(move || {
                        for o in p {
                            check(o, format!("on thread {}", i + 1));
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            rt::threads(shm, &c.conf, plan, first, programs);
            for o in used() {
                check(*o, "after the threads".into());
            }
            rt::end(1, "");
        });
        let s = unsafe { &*shm };
        self.schedules += 1;
        self.points += u64::from(s.points);
        self.switches += u64::from(s.switches);
        self.accesses += s.accesses;
        if r.is_empty() { Ok(()) } else { Err(format!("{}\tschedule: thread {first} first, then {plan:?}\t{r}", c.text)) }
    }

    /// Addresses seen to be used by several threads, to those known
    fn learn(&self, c: &mut Config) -> bool {
        let s = unsafe { &*self.shm };
        let mut new = false;
        for g in &s.conf[..s.nconf as usize] {
            if let Err(i) = c.conf.binary_search(g) {
                c.conf.insert(i, *g);
                new = true;
            }
        }
        new
    }

    /// All schedules with up to `bound` preemptions, or the first `most` of them; false if these are
    /// not all, or there was no time for all
    fn explore(&mut self, c: &mut Config, bound: usize, most: u64) -> Result<bool, String> {
        let n = c.threads.len();
        let most = self.schedules.saturating_add(most);
        'again: for _ in 0..12 {
            let mut stack: Vec<(usize, Vec<(u32, usize)>)> = (1..=n).rev().map(|f| (f, vec![])).collect();
            while let Some((first, plan)) = stack.pop() {
                if Instant::now() > self.until || self.schedules > most {
                    return Ok(false);
                }
                self.run(c, first, &plan)?;
                if self.learn(c) {
                    continue 'again;
                }
                if plan.len() < bound {
                    let points = unsafe { (*self.shm).points };
                    let from = plan.last().map_or(0, |p| p.0);
                    for k in (from + 1..=points).rev() {
                        for t in 1..=n {
                            let mut p = plan.clone();
                            p.push((k, t));
                            stack.push((first, p));
                        }
                    }
                }
            }
            return Ok(true);
        }
        Ok(false)
    }
}

fn configs(names: &[String]) -> Vec<String> {
    let mut v = vec![];
    for a in names {
        for b in names {
            if a <= b {
                v.push(format!("|{a};{b}"));
            }
        }
    }
    for (i, a) in names.iter().enumerate() {
        for b in &names[i..] {
            v.push(format!("{a}|{a};{b}"));
            v.push(format!("{b}|{a};{b}"));
            v.push(format!("|{a},{b};{b},{a}"));
            v.push(format!("|{a},{b};{a},{b}"));
        }
    }
    let few: Vec<&String> = names.iter().filter(|n| ["parse0", "parse4", "parse9", "lex0", "preds3", "odd3", "unknown3", "term2", "lookup0", "lookup2", "builtin0", "triple0"].contains(&n.as_str())).collect();
    for a in &few {
        for b in &few {
            for c in &few {
                if a <= b && b <= c {
                    v.push(format!("|{a};{b};{c}"));
                }
            }
        }
    }
    v
}

#[repr(C)]
struct Total {
    stop: AtomicU32,
    next: [AtomicU32; 8],
    /// configurations explored with so many preemptions, and with conflicts
    full: [AtomicU64; 8],
    begun: AtomicU64,
    conflicting: AtomicU64,
    schedules: AtomicU64,
    points: AtomicU64,
    switches: AtomicU64,
    accesses: AtomicU64,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("one") => {
            let mut x = Explorer::new(300);
            let mut c = x.config(&args[2]);
            for b in 0..=2 {
                if let Err(e) = x.explore(&mut c, b, u64::MAX) {
                    println!("VIOLATION\t{e}");
                    std::process::exit(1);
                }
            }
            println!("held {} schedules, {} conflicts", x.schedules, c.conf.len());
        }
        Some("explore") => {
            let seconds: u64 = args[2].parse().expect("seconds");
            let bound: usize = args[3].parse().expect("preemptions");
            let total = unsafe { &*rt::map(size_of::<Total>(), true).cast::<Total>() };
            let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 8);
            let mut x = Explorer::new(seconds);
            let all = configs(&x.names);
            // a part of the schedules of all, before all of those of any
            let mut levels = vec![(0, u64::MAX)];
            for b in 1..=bound {
                levels.push((b, 100 << (3 * b)));
                levels.push((b, u64::MAX));
            }
            let mut ids = vec![];
            for _ in 0..workers {
                let p = unsafe { fork() };
                assert!(p >= 0, "fork");
                if p == 0 {
                    x.shm = rt::map(size_of::<Shm>(), true).cast::<Shm>();
                    let mut conf: Vec<Vec<usize>> = vec![];
                    conf.resize_with(all.len(), Vec::new);
                    'bounds: for (level, (b, most)) in levels.iter().copied().enumerate() {
                        loop {
                            if total.stop.load(SeqCst) != 0 {
                                break 'bounds;
                            }
                            let i = total.next[level].fetch_add(1, SeqCst) as usize;
                            let Some(text) = all.get(i) else { break };
                            let mut c = x.config(text);
                            // without conflicts, all schedules are the same
                            if b > 0 {
                                match x.explore(&mut c, 0, u64::MAX) {
                                    Ok(true) if c.conf.is_empty() => {
                                        total.full[level].fetch_add(1, SeqCst);
                                        continue;
                                    }
                                    _ => {}
                                }
                            }
                            match x.explore(&mut c, b, most) {
                                Ok(full) => {
                                    total.full[level].fetch_add(u64::from(full), SeqCst);
                                    if b == 0 {
                                        total.conflicting.fetch_add(u64::from(!c.conf.is_empty()), SeqCst);
                                        total.begun.fetch_add(1, SeqCst);
                                    }
                                }
                                Err(e) => {
                                    if total.stop.swap(1, SeqCst) == 0 {
                                        println!("VIOLATION\t{e}");
                                    }
                                    break 'bounds;
                                }
                            }
                        }
                        if b == 0 {
                            // all have to be done before it is known that there are no conflicts
                            while total.begun.load(SeqCst) < all.len() as u64 && total.stop.load(SeqCst) == 0 && Instant::now() < x.until {
                                std::thread::sleep(Duration::from_millis(2));
                            }
                            if total.conflicting.load(SeqCst) == 0 {
                                break;
                            }
                        }
                    }
                    total.schedules.fetch_add(x.schedules, SeqCst);
                    total.points.fetch_add(x.points, SeqCst);
                    total.switches.fetch_add(x.switches, SeqCst);
                    total.accesses.fetch_add(x.accesses, SeqCst);
                    std::process::exit(0);
                }
                ids.push(p);
            }
            let mut fine = true;
            for p in ids {
                let mut st = 0;
                unsafe { waitpid(p, &mut st, 0) };
                fine &= st == 0;
            }
            let l = |a: &AtomicU64| a.load(SeqCst);
            println!(
                "SUMMARY\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
                all.len(),
                l(&total.conflicting),
                (0..=bound).map(|b| l(&total.full[if b == 0 { 0 } else { 2 * b }]).max(l(&total.full[if b == 0 { 0 } else { 2 * b - 1 }])).to_string()).collect::<Vec<_>>().join(","),
                l(&total.schedules),
                l(&total.points),
                l(&total.switches),
                l(&total.accesses)
            );
            if !fine {
                std::process::exit(3);
            }
        }
        _ => {
            let _ = THREADS;
            eprintln!("usage: sched explore SECONDS PREEMPTIONS, sched one CONFIGURATION");
            std::process::exit(2);
        }
    }
}
