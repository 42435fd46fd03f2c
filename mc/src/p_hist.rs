//! P16: results do not depend on history, on nesting, or on other threads. Operations are
//! deterministic programs over the public API which pass through points where control is with
//! the user (closures, logic operations, iterators, writers); what each one gives when it is the
//! first and only one in a process is compared with what it gives after any others, within
//! others, and interleaved with others at all these points.

use crate::engine::*;
use crate::p_target::{Kind, Row, leak};
use cfg_expr::expr::lexer::Lexer;
use cfg_expr::expr::{Logic, TargetMatcher, TargetPredicate as TP};
use cfg_expr::targets::*;
use cfg_expr::{Expression, Predicate, TargetPredicate};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Barrier, Condvar, LazyLock, Mutex};
use std::time::Duration;

// ---- points -------------------------------------------------------------------------------

enum Mode {
    Off,
    Count(u32),
    /// at the point which is that many away, runs the operation (nested further by the rest)
    Nest(u32, Vec<(u32, String)>, Vec<String>),
    Baton(Arc<Baton>, u8),
}

thread_local! {
    static MODE: RefCell<Mode> = const { RefCell::new(Mode::Off) };
}

/// Here control is with the user
fn point() {
    let m = MODE.with(|m| m.replace(Mode::Off));
    let m = match m {
        Mode::Off => Mode::Off,
        Mode::Count(n) => Mode::Count(n + 1),
        Mode::Nest(0, plan, mut out) if !plan.is_empty() => {
            let inner = plan[0].1.clone();
            if let Some(next) = plan.get(1) {
                MODE.with(|m| m.replace(Mode::Nest(next.0, plan[1..].to_vec(), vec![])));
            }
            let r = run_op(&inner);
            out.push(r);
            if let Mode::Nest(_, rest, deeper) = MODE.with(|m| m.replace(Mode::Off)) {
                out.extend(deeper);
                // was not reached
                if rest.len() == plan.len() - 1 && plan.len() > 1 {
                    out.push("-".into());
                }
            }
            Mode::Nest(0, vec![], out)
        }
        Mode::Nest(n, plan, out) => Mode::Nest(n.saturating_sub(1), plan, out),
        Mode::Baton(b, id) => {
            b.pass(id);
            Mode::Baton(b, id)
        }
    };
    MODE.with(|x| x.replace(m));
}

/// Lets one thread run at a time, as the schedule says, switching at points
struct Baton {
    state: Mutex<BatonState>,
    cond: Condvar,
}

struct BatonState {
    sched: Vec<u8>,
    pos: usize,
    done: u32,
    threads: u8,
    /// somebody did not come back: everybody runs freely
    free: bool,
}

impl BatonState {
    fn turn(&mut self) -> Option<u8> {
        while self.pos < self.sched.len() {
            let t = self.sched[self.pos];
            if self.done >> t & 1 == 0 {
                return Some(t);
            }
            self.pos += 1;
        }
        (0..self.threads).find(|t| self.done >> t & 1 == 0)
    }
}

impl Baton {
    fn new(sched: &[u8], threads: u8) -> Self {
        Baton { state: Mutex::new(BatonState { sched: sched.to_vec(), pos: 0, done: 0, threads, free: false }), cond: Condvar::new() }
    }
    fn wait(&self, id: u8) {
        let mut s = self.state.lock().unwrap();
        loop {
            if s.free || s.turn() == Some(id) {
                return;
            }
            let (g, t) = self.cond.wait_timeout(s, Duration::from_secs(4)).unwrap();
            s = g;
            if t.timed_out() {
                s.free = true;
                self.cond.notify_all();
            }
        }
    }
    fn pass(&self, id: u8) {
        let mut s = self.state.lock().unwrap();
        s.pos += 1;
        if s.free || s.turn() == Some(id) {
            return;
        }
        self.cond.notify_all();
        drop(s);
        self.wait(id);
    }
    fn finish(&self, id: u8) {
        let mut s = self.state.lock().unwrap();
        s.done |= 1 << id;
        s.pos += 1;
        self.cond.notify_all();
    }
}

// ---- operations ---------------------------------------------------------------------------

fn bit(text: &str, salt: u64) -> bool {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ salt.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for b in text.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    (h ^ h >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9) >> 63 == 1
}

/// A logic in which every operation is a point, and which builds the term
#[derive(Debug)]
struct Term(String);

impl Logic for Term {
    fn top() -> Self {
        point();
        Term("T".into())
    }
    fn bottom() -> Self {
        point();
        Term("F".into())
    }
    fn and(self, o: Self) -> Self {
        point();
        Term(format!("({}&{})", self.0, o.0))
    }
    fn or(self, o: Self) -> Self {
        point();
        Term(format!("({}|{})", self.0, o.0))
    }
    fn not(self) -> Self {
        point();
        Term(format!("!{}", self.0))
    }
}

/// A writer with a point in each write
struct Paper(String);

impl Write for Paper {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        point();
        self.0.push_str(s);
        Ok(())
    }
}

fn show(d: &impl std::fmt::Display) -> String {
    let mut p = Paper(String::new());
    write!(p, "{d}").expect("no error");
    p.0
}

fn show_debug(d: &impl std::fmt::Debug) -> String {
    let mut p = Paper(String::new());
    write!(p, "{d:?}").expect("no error");
    p.0
}

/// A user's target, which answers from the predicate's text
struct Mine;

impl TargetMatcher for Mine {
    fn matches(&self, tp: &TP) -> bool {
        point();
        bit(&format!("{tp:?}"), 3)
    }
}

fn use_expression(e: &Expression) -> String {
    let mut o = format!("{:?}", e.original());
    let mut it = e.predicates();
    loop {
        point();
        let Some(p) = it.next() else { break };
        write!(o, " {p:?}").unwrap();
    }
    drop(it);
    let mut calls = String::new();
    for salt in 0..2 {
        let v = e.eval(|p| {
            point();
            let t = format!("{p:?}");
            let b = bit(&t, salt);
            calls.push(if b { '1' } else { '0' });
            b
        });
        write!(calls, "={v};").unwrap();
    }
    let v = e.eval(|p| {
        point();
        let t = format!("{p:?}");
        if bit(&t, 7) { None } else { Some(bit(&t, 8)) }
    });
    write!(o, " {calls} {v:?}").unwrap();
    o
}

fn rejected(e: &cfg_expr::ParseError) -> String {
    format!("rejected {} {}", show_debug(e), show(e))
}

const SHARED_TEXTS: [&str; 6] = [
    "all(unix, not(any(windows, target_os = \"linux\")), feature = \"shared\")",
    "any(all(a, b), all(c, d), e)",
    "not(a)",
    "any(a, b, c, d)",
    "any(a, b, c, e)",
    "all()",
];

/// Expressions are for sharing between threads. Whether their type allows it is asked in
/// `threads16`, so that this compiles even where it does not
struct Shared(Vec<Expression>);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

static SHARED: LazyLock<Shared> = LazyLock::new(|| Shared(SHARED_TEXTS.iter().map(|t| Expression::parse(t).expect("parses")).collect()));

/// Runs an operation, giving everything it shows
pub fn run_op(op: &str) -> String {
    match catch_unwind(AssertUnwindSafe(|| run_op_inner(op))) {
        Ok(s) => s,
        Err(_) => last_panic(),
    }
}

fn run_op_inner(op: &str) -> String {
    let (kind, arg) = op.split_once(':').expect("operation");
    match kind {
        "eval" => match Expression::parse(arg) {
            Ok(e) => use_expression(&e),
            Err(e) => rejected(&e),
        },
        "term" => match Expression::parse(arg) {
            Ok(e) => e
                .eval(|p| {
                    point();
                    Term(format!("[{p:?}]"))
                })
                .0,
            Err(e) => rejected(&e),
        },
        "lex" => {
            let mut o = String::new();
            let mut l = Lexer::new(arg);
            for _ in 0..arg.len() + 3 {
                match l.next() {
                    None => break,
                    Some(Ok(t)) => write!(o, "{:?}@{:?} ", t.token, t.span).unwrap(),
                    Some(Err(e)) => o.push_str(&rejected(&e)),
                }
                point();
            }
            o
        }
        "find" => {
            let f = get_builtin_target_by_triple(arg);
            point();
            let mut o = format!("{} {}", rustc_version(), ALL_BUILTINS.len());
            if let Some(t) = f {
                o.push_str(&show(&t.triple));
                for p in [TP::Os(Os::linux), TP::Os(Os::new("none".to_owned())), TP::Family(Family::unix), TP::PointerWidth(64), TP::Endian(Endian::little), TP::Vendor(Vendor::unknown), TP::HasAtomic(HasAtomic::Pointer), TP::Env(Env::new("")), TP::Abi(Abi::new_const("")), TP::Panic(Panic::unwind), TP::Arch(Arch::x86_64)] {
                    point();
                    o.push(if p.matches(t) { '1' } else { '0' });
                }
                o.push_str(&show(&t.families));
                o.push_str(&show(&t.has_atomics));
            }
            o
        }
        // triple|text
        "match" => {
            let (t, text) = arg.split_once('|').expect("triple");
            let e = Expression::parse(text).expect("parses");
            point();
            let t = get_builtin_target_by_triple(t).expect("builtin");
            let a = e.eval(|p| {
                point();
                match p {
                    Predicate::Target(tp) => tp.matches(t),
                    _ => false,
                }
            });
            let b = e.eval(|p| match p {
                Predicate::Target(tp) => tp.matches(&Mine),
                _ => false,
            });
            format!("{a} {b}")
        }
        #[cfg(feature = "lex")]
        "triple" => {
            let (t, text) = arg.split_once('|').expect("triple");
            let e = Expression::parse(text).expect("parses");
            let t: cfg_expr::target_lexicon::Triple = t.parse().expect("triple");
            let a = e.eval(|p| {
                point();
                match p {
                    Predicate::Target(tp) => tp.matches(&t),
                    _ => false,
                }
            });
            format!("{a}")
        }
        "fams" => {
            let f = Families::new(arg.split(',').filter(|s| !s.is_empty()).map(|s| {
                point();
                Family::new(s.to_owned())
            }));
            let g = Families::new(f.iter().rev().cloned());
            let v: Vec<bool> = ["unix", "windows", "a", "x"].iter().map(|s| f.contains(&Family::new(*s))).collect();
            format!("{} {} {v:?} {}", show(&f), f.len(), f == g)
        }
        "atoms" => {
            let f = HasAtomics::new(arg.split(',').filter(|s| !s.is_empty()).map(|s| {
                point();
                s.parse::<HasAtomic>().expect("atomic")
            }));
            let v: Vec<bool> = [8, 16, 64, 128].iter().map(|s| f.contains(HasAtomic::IntegerSize(*s))).collect();
            format!("{} {} {v:?} {}", show(&f), f.len(), f.contains(HasAtomic::Pointer))
        }
        "num" => {
            let a = arg.parse::<HasAtomic>();
            point();
            let b = arg.parse::<Endian>();
            let mut o = format!("{a:?} {b:?} ");
            match &a {
                Ok(a) => o.push_str(&show(a)),
                Err(e) => o.push_str(&show(e)),
            }
            if let Err(e) = &b {
                o.push_str(&show(e));
            }
            o
        }
        "value" => {
            let s = leak(arg);
            format!("{} {} {} {} {}", show(&Os::new(s)), show(&Arch::new(arg.to_owned())), show(&Vendor::new_const(s)), Env::new(s) == Env::new(arg.to_owned()), Abi::new(s).as_str())
        }
        // k|text: the closure panics at the k-th call
        "panic" => {
            let (k, text) = arg.split_once('|').expect("count");
            let k: usize = k.parse().expect("count");
            let e = Expression::parse(text).expect("parses");
            let mut n = 0;
            let r = catch_unwind(AssertUnwindSafe(|| {
                e.eval(|p| {
                    point();
                    if n == k {
                        std::panic::resume_unwind(Box::new(1));
                    }
                    n += 1;
                    bit(&format!("{p:?}"), 1)
                })
            }));
            format!("{:?} after {n}; {}", r.ok(), use_expression(&e))
        }
        // k|text: the logic panics at the k-th operation
        "panicop" => {
            let (k, text) = arg.split_once('|').expect("count");
            thread_local!(static LEFT: std::cell::Cell<i32> = const { std::cell::Cell::new(0) });
            #[derive(Debug)]
            struct Bomb;
            fn tick() -> Bomb {
                LEFT.with(|l| {
                    if l.get() == 0 {
                        std::panic::resume_unwind(Box::new(1));
                    }
                    l.set(l.get() - 1);
                });
                Bomb
            }
            impl Logic for Bomb {
                fn top() -> Self {
                    tick()
                }
                fn bottom() -> Self {
                    tick()
                }
                fn and(self, _: Self) -> Self {
                    tick()
                }
                fn or(self, _: Self) -> Self {
                    tick()
                }
                fn not(self) -> Self {
                    tick()
                }
            }
            LEFT.with(|l| l.set(k.parse().expect("count")));
            let e = Expression::parse(text).expect("parses");
            let r = catch_unwind(AssertUnwindSafe(|| {
                e.eval(|_| Bomb);
            }));
            format!("{}; {}", r.is_ok(), use_expression(&e))
        }
        // k|text: iterators which are left after k steps
        "half" => {
            let (k, text) = arg.split_once('|').expect("count");
            let k: usize = k.parse().expect("count");
            let mut o = String::new();
            let mut l = Lexer::new(text);
            for t in l.by_ref().take(k) {
                write!(o, "{:?} ", t.map(|t| t.span).ok()).unwrap();
                point();
            }
            std::mem::forget(l);
            if let Ok(e) = Expression::parse(text) {
                let mut it = e.predicates();
                for p in it.by_ref().take(k) {
                    write!(o, "{p:?} ").unwrap();
                    point();
                }
            }
            o
        }
        "shared" => {
            let i: usize = arg.parse().expect("index");
            let e = &SHARED.0[i];
            let c = e.clone();
            point();
            let eq: Vec<bool> = SHARED.0.iter().map(|f| *f == c).collect();
            format!("{eq:?} {} {}", use_expression(e), use_expression(&c))
        }
        _ => panic!("operation {op}"),
    }
}

fn texts() -> Vec<String> {
    let mut v: Vec<String> = [
        "unix", "windows", "cfg(unix)", "cfg( unix)", "unix ", "a", "b", "cfg", "cfg(cfg)", "test", "debug_assertions", "proc_macro",
        "feature = \"aaaa\"", "feature = \"aaab\"", "feature = \"baaa\"", "feature = \"abaa\"", "key = \"aaaa\"",
        "feature = \"é\"", "feature = \"ê\"", "target_feature = \"sse\"", "target_feature = \"sss\"",
        "all(unix, target_os = \"linux\")", "any(unix, target_os = \"linux\")", "all(unix, target_os = \"macos\")",
        "all(aa, bb)", "all(bb, aa)", "any(ab, ba)", "any(aa, bb)", "all(a, b)", "any(a, b)", "not(a)", "not(b)", "not(not(a))",
        "any(not(a))", "all(not(a), b)", "all(not(b), a)", "all()", "any()", "not(all())", "all(any(), all())", "any(all(), any())",
        "all(a, any(b, c), not(d))", "all(a, any(b, d), not(c))", "any(all(a), any(b), all(c))", "not(any(a, b, c, d))", "all(a, a, a, a)",
        "target_has_atomic = \"64\"", "target_has_atomic = \"ptr\"", "target_pointer_width = \"64\"", "target_pointer_width = \"32\"",
        "all(target_endian = \"big\", target_arch = \"x86\", target_env = \"gnu\", target_vendor = \"pc\", target_abi = \"\", panic = \"abort\", target_family = \"unix\")",
    ]
    .map(String::from)
    .into();
    v.push(format!("all({})", (0..70).map(|i| format!("a{i}")).collect::<Vec<_>>().join(", ")));
    v.push(format!("any({})", (0..70).map(|i| format!("a{i}")).collect::<Vec<_>>().join(", ")));
    for c in ['x', 'y'] {
        v.push(format!("all({}, k = \"{c}\", {})", (0..9).map(|i| format!("a{i}")).collect::<Vec<_>>().join(", "), (0..9).map(|i| format!("b{i}")).collect::<Vec<_>>().join(", ")));
        v.push(format!("{}{c}{}", "not(".repeat(41), ")".repeat(41)));
        v.push(format!("feature = \"{}{c}{}\"", "l".repeat(600), "l".repeat(600)));
    }
    v
}

/// What may go wrong at the end of a text, or after it, and what shows it
fn long_texts() -> Vec<String> {
    let items = ["a", "all(a)", "any()", "not(b)", "all(a, b)", "k = \"v\"", "not(any(a, b))"];
    let mut v: Vec<String> = Vec::new();
    for a in items {
        for b in items {
            for sep in [", ", " ", ",, ", ") ", " ( ", ""] {
                v.push(format!("{a}{sep}{b}"));
            }
            v.push(format!("not({a}, {b})"));
            v.push(format!("all({a}, {b}, not({a}))"));
            v.push(format!("any({a}, {b}"));
            v.push(format!("all({a}, {b}))"));
            v.push(format!("cfg(any({a}, {b}))"));
        }
        for (p, q) in [("", ","), ("", ")"), ("", "))"), ("all(", ""), ("all(all(", ")"), ("not(", ""), ("cfg(", ""), ("(", ")"), ("", " $"), ("", " \"x"), ("", " ="), ("not(not(", "))"), ("cfg(", ")"), ("any(x, ", ")")] {
            v.push(format!("{p}{a}{q}"));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// All sequences of so many tokens
fn token_texts(max: u32) -> Vec<String> {
    let t = crate::texts::TOKENS;
    let mut out = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..max {
        level = level.iter().flat_map(|s| t.iter().map(move |x| if s.is_empty() { x.to_string() } else { format!("{s} {x}") })).collect();
        out.extend(level.iter().cloned());
    }
    out
}

const BAD_TEXTS: [&str; 24] = [
    "", " ", "all(", "all)", "not(a, b)", "not()", "a b", "a = ", "= \"a\"", "\"x", "a = \"x", "é", "all(é)", "feature", "target_os",
    "target_pointer_width = \"x\"", "target_endian = \"x\"", "target_has_atomic = \"x\"", "a,,b", "all(a,,b)", "a)", "cfg(a", "all(a, b))", "unix = \"a\"",
];

/// The operations, the more varied ones first
pub fn ops() -> Vec<String> {
    let t = texts();
    let mut v: Vec<String> = Vec::new();
    v.extend(t.iter().map(|t| format!("eval:{t}")));
    v.extend(BAD_TEXTS.iter().map(|t| format!("eval:{t}")));
    for i in [0, 8, 12, 21, 22, 24, 27, 30, 32, 36, 37, 41, 43, 51] {
        v.push(format!("term:{}", t[i]));
    }
    for i in [0, 2, 12, 13, 17, 21, 22, 41, 50] {
        v.push(format!("lex:{}", t[i]));
    }
    for b in ["\"x", "é", "all(a, \"b\", =", "a = \"x", ""] {
        v.push(format!("lex:{b}"));
    }
    for f in ["x86_64-unknown-linux-gnu", "x86_64-unknown-linux-musl", "x86_64-pc-windows-msvc", "aarch64-apple-darwin", "wasm32-wasip1", "i686-unknown-linux-gnu", "x86_64-unknown-linux-gn", "x86_64-unknown-linux-gnu ", "", "zzz"] {
        v.push(format!("find:{f}"));
    }
    for m in ["x86_64-unknown-linux-gnu", "x86_64-pc-windows-msvc", "aarch64-apple-darwin"] {
        v.push(format!("match:{m}|any(target_os = \"linux\", all(windows, target_env = \"msvc\"))"));
        v.push(format!("match:{m}|all(unix, not(target_vendor = \"apple\"))"));
        #[cfg(feature = "lex")]
        v.push(format!("triple:{m}|all(any(unix, target_env = \"msvc\"), target_pointer_width = \"64\")"));
    }
    v.extend(["fams:", "fams:unix", "fams:windows,unix", "fams:unix,windows", "fams:x,a,x,a,b", "atoms:", "atoms:8,ptr", "atoms:ptr,8", "atoms:64,8,16,8", "num:ptr", "num:64", "num:65535", "num:65536", "num:little", "num:x", "num:", "value:linux", "value:lniux", "value:"].map(String::from));
    for t in ["all(a, b, c)", "all(b, a, c)", "any(all(a, b), not(c))"] {
        for k in 0..3 {
            v.push(format!("panic:{k}|{t}"));
            v.push(format!("panicop:{k}|{t}"));
        }
        v.push(format!("half:1|{t}"));
        v.push(format!("half:3|{t}"));
    }
    v.extend((0..SHARED_TEXTS.len()).map(|i| format!("shared:{i}")));
    v
}

/// Operations of each kind, with few points
fn small_ops() -> Vec<String> {
    [
        "eval:all(a, b)", "eval:any(a, b)", "eval:all(aa, not(bb))", "eval:feature = \"aaaa\"", "eval:feature = \"aaab\"", "eval:unix", "eval:not(a, b)", "eval:all(é)", "eval:any()",
        "term:all(a, any(b, c), not(d))", "term:any(a, not(b))", "lex:all(a, b = \"c\")", "lex:any(x)", "find:x86_64-unknown-linux-gnu", "find:zzz",
        "match:x86_64-unknown-linux-gnu|all(unix, not(target_vendor = \"apple\"))", "fams:windows,unix", "fams:a,x", "atoms:64,8", "num:65536", "panic:1|all(a, b, c)", "panicop:2|any(all(a, b), not(c))", "half:1|all(b, a, c)",
        "shared:2", "shared:3", "shared:4",
    ]
    .map(String::from)
    .into()
}

/// What the operation gives, and its number of points, as the first one of a process
fn base(op: &str) -> Arc<(String, u32)> {
    static ALL: LazyLock<Mutex<HashMap<String, Arc<(String, u32)>>>> = LazyLock::new(Default::default);
    if let Some(b) = ALL.lock().unwrap().get(op) {
        return b.clone();
    }
    let exe = std::env::current_exe().expect("exe");
    let out = std::process::Command::new(exe).args(["op16", op]).output().expect("op16");
    let t = String::from_utf8_lossy(&out.stdout).into_owned();
    let b = match t.split_once('\n') {
        Some((n, d)) if out.status.success() => Arc::new((d.to_owned(), n.parse().expect("points"))),
        _ => Arc::new((format!("no answer: {}", out.status), 0)),
    };
    ALL.lock().unwrap().insert(op.to_owned(), b.clone());
    b
}

/// op16: runs operations, each on the same thread, printing the points and result of the first,
/// or of each one a line
pub fn op16(ops: &[&str]) {
    let many = ops.len() > 1;
    for op in ops {
        MODE.with(|m| m.replace(Mode::Count(0)));
        let r = run_op(op);
        let n = match MODE.with(|m| m.replace(Mode::Off)) {
            Mode::Count(n) => n,
            _ => 0,
        };
        if many {
            println!("{}", crate::json::s(&r));
        } else {
            print!("{n}\n{r}");
        }
    }
}

fn expect(op: &str, got: &str, when: &str) -> Res {
    let b = base(op);
    if b.0 != got {
        return Err(bad(format!("{op:?} gives {:?}, as when it is alone", b.0), format!("{got:?} {when}")));
    }
    Ok(())
}

// ---- cases --------------------------------------------------------------------------------

/// Steps two iterators by turns
fn iterate(spec: &str) -> Box<dyn FnMut() -> String + '_> {
    let (k, t) = spec.split_once(':').expect("spec");
    match k {
        "lex" => {
            let mut l = Lexer::new(t);
            Box::new(move || match l.next() {
                None => "end".into(),
                Some(Ok(t)) => format!("{:?}@{:?}", t.token, t.span),
                Some(Err(e)) => format!("{e:?} {e}"),
            })
        }
        _ => {
            // lives as long as the process
            let e: &'static Expression = Box::leak(Box::new(Expression::parse(t).expect("parses")));
            let mut it = e.predicates();
            Box::new(move || it.next().map_or("end".into(), |p| format!("{p:?}")))
        }
    }
}

fn run_baton(sched: &[u8], ops: &[String]) -> (Vec<String>, bool) {
    let b = Arc::new(Baton::new(sched, ops.len() as u8));
    let hs: Vec<_> = ops
        .iter()
        .enumerate()
        .map(|(i, op)| {
            let (b, op) = (b.clone(), op.clone());
            std::thread::spawn(move || {
                b.wait(i as u8);
                MODE.with(|m| m.replace(Mode::Baton(b.clone(), i as u8)));
                let r = run_op(&op);
                MODE.with(|m| m.replace(Mode::Off));
                b.finish(i as u8);
                r
            })
        })
        .collect();
    let r = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "thread died".into())).collect();
    let free = b.state.lock().unwrap().free;
    (r, free)
}

/// case: kind, and its parts, separated by \u{1}
/// Types which users share between threads, and those of them which are not Sync or not Send
fn threads16() -> Vec<(&'static str, bool)> {
    use std::marker::PhantomData;
    struct Ask<T: ?Sized>(PhantomData<T>);
    // of two methods of the same name, that with fewer references is taken if its bounds are met
    trait No {
        fn both(&self) -> bool {
            false
        }
    }
    impl<T: ?Sized> No for &Ask<T> {}
    impl<T: ?Sized + Send + Sync> Ask<T> {
        fn both(&self) -> bool {
            true
        }
    }
    macro_rules! ask {
        ($($t:ty),*) => { vec![$((stringify!($t), (&Ask::<$t>(PhantomData)).both())),*] };
    }
    ask!(
        Expression, Predicate<'static>, TargetPredicate, cfg_expr::ParseError, cfg_expr::error::Reason, TargetInfo, Triple, Abi, Arch, Vendor, Os, Env, Family, Families, Panic,
        HasAtomic, HasAtomics, Endian, cfg_expr::expr::lexer::Lexer<'static>, cfg_expr::expr::lexer::LexerToken<'static>, std::cell::Cell<u8>
    )
}

/// What differs from the first one: the field, and its values
const VARIANTS: [(Kind, &str); 22] = [
    (Kind::Os, "linux"), (Kind::Os, "haiku"), (Kind::Os, "~"), (Kind::Abi, "~"), (Kind::Abi, "eabi"), (Kind::Abi, "spex"), (Kind::Arch, "arm64"), (Kind::Arch, "mips6"), (Kind::Env, "~"),
    (Kind::Env, "musl"), (Kind::Env, "gnus"), (Kind::Vendor, "~"), (Kind::Vendor, "apple"), (Kind::Vendor, "espre"), (Kind::Family, ""), (Kind::Family, "unix"), (Kind::Family, "wasm"),
    (Kind::Family, "unix, wasm"), (Kind::Atomic, "8, 16"), (Kind::Atomic, "8, ptr"), (Kind::Width, "16"), (Kind::Endian, "big"),
];

fn variant(i: usize) -> Row {
    let mut r = Row::parse("a-target-of-mine|linux|~|arm64|musl|apple|{unix}|64|little|{8, 64}|abort");
    let (k, v) = VARIANTS[i];
    let o = (v != "~").then(|| v.to_owned());
    let l = || v.split(", ").filter(|x| !x.is_empty()).map(str::to_owned).collect::<Vec<_>>();
    match k {
        Kind::Os => r.os = o,
        Kind::Abi => r.abi = o,
        Kind::Arch => r.arch = v.into(),
        Kind::Env => r.env = o,
        Kind::Vendor => r.vendor = o,
        Kind::Family => r.families = l(),
        Kind::Atomic => r.atomics = l(),
        Kind::Width => r.width = 16,
        _ => r.endian = "big".into(),
    }
    r
}

/// Targets made at run time, whose memory is used again for the next ones
fn made(how: &str, which: &[&str], st: &mut Stats) -> Res {
    static PREDS: LazyLock<Vec<(Kind, String)>> = LazyLock::new(|| {
        let mut v: Vec<(Kind, String)> = Vec::new();
        for (k, t) in VARIANTS {
            v.extend(t.split(", ").filter(|t| *t != "~").map(|t| (k, t.to_owned())));
        }
        v.extend([(Kind::Os, "none"), (Kind::Abi, ""), (Kind::Env, ""), (Kind::Vendor, "unknown"), (Kind::Atomic, "64"), (Kind::Width, "64"), (Kind::Endian, "little"), (Kind::Panic, "abort")].map(|(k, t)| (k, t.to_owned())));
        v.retain(|(k, t)| k.pred(t, false).is_some());
        v.sort();
        v.dedup();
        v
    });
    let rows: Vec<Row> = which.iter().map(|w| variant(w.parse().expect("variant"))).collect();
    let ask = |n: usize, k: Kind, v: &str, t: &TargetInfo| {
        let got = k.pred(v, false).expect("predicate").matches(t);
        match got == rows[n].sets(k, v) {
            true => Ok(()),
            false => Err(bad(format!("{} for {} = {v:?} of target {n}", !got, k.key()), format!("{got}"))),
        }
    };
    st.cover.transitions += (PREDS.len() * rows.len()) as u64;
    match how {
        // all predicates of one target, then of the next, which is in its place
        "fresh" => {
            for (n, r) in rows.iter().enumerate() {
                let t = Box::new(r.build(false));
                for (k, v) in PREDS.iter() {
                    ask(n, *k, v, &t)?;
                }
            }
        }
        // the same predicate of all targets, one made after the other
        "by predicate" => {
            for (k, v) in PREDS.iter() {
                for (n, r) in rows.iter().enumerate() {
                    ask(n, *k, v, &r.build(false))?;
                }
            }
        }
        // likewise, but only a list has memory of their own
        "static" => {
            for (k, v) in PREDS.iter() {
                let p = k.pred(v, true).expect("predicate");
                let mut bare = rows.clone();
                for r in &mut bare {
                    match k {
                        Kind::Atomic => r.families.clear(),
                        _ => r.atomics.clear(),
                    }
                }
                for _ in 0..2 {
                    for (n, r) in bare.iter().enumerate() {
                        let got = p.matches(&r.build(true));
                        if got != r.sets(*k, v) {
                            return Err(bad(format!("{} for {} = {v:?} of target {n}", !got, k.key()), format!("{got}")));
                        }
                    }
                }
            }
        }
        // a target which changes
        "place" => {
            for (k, v) in PREDS.iter() {
                let mut t = rows[0].build(false);
                ask(0, *k, v, &t)?;
                for (n, r) in rows.iter().enumerate().skip(1) {
                    let TargetInfo { os, abi, arch, env, vendor, families, pointer_width, endian, has_atomics, panic, .. } = r.build(n % 2 == 0);
                    (t.os, t.abi, t.arch, t.env, t.vendor) = (os, abi, arch, env, vendor);
                    (t.families, t.pointer_width, t.endian, t.has_atomics, t.panic) = (families, pointer_width, endian, has_atomics, panic);
                    ask(n, *k, v, &t)?;
                }
            }
        }
        // all at the same time, by turns
        _ => {
            let ts: Vec<TargetInfo> = rows.iter().map(|r| r.build(false)).collect();
            for (k, v) in PREDS.iter() {
                for (n, t) in ts.iter().enumerate().chain(ts.iter().enumerate().rev()) {
                    ask(n, *k, v, t)?;
                    ask(n, *k, v, &t.clone())?;
                }
            }
        }
    }
    Ok(())
}

pub fn p16(case: &str, st: &mut Stats) -> Res {
    let v: Vec<&str> = case.split('\u{1}').collect();
    st.traces += 1;
    st.outcome(v[0]);
    match v[0] {
        "share" => match threads16().into_iter().find(|(n, _)| *n == v[1]) {
            // the last one is there to see that the question makes a difference
            Some((n, yes)) if yes == n.contains("Cell") => Err(bad(format!("{n} can be used from several threads"), "it is not Send and Sync")),
            _ => Ok(()),
        },
        // all schedules of two or three threads which switch at accesses to memory they share
        "sched" => match sched(&["one", v[1]]) {
            None => Err(bad("an explorer of schedules", "it was not built")),
            Some(out) => match out.lines().find_map(|l| l.strip_prefix("VIOLATION\t")) {
                None => Ok(()),
                Some(l) => {
                    let (place, got) = l.rsplit_once("\tobserved ").unwrap_or((l, l));
                    let (place, want) = place.rsplit_once("\texpected ").unwrap_or((place, "an answer, as without the other thread"));
                    Err(bad(want.to_owned(), format!("{got} ({})", place.replace('\t', "; "))))
                }
            },
        },
        "alone" => {
            let b = base(v[1]);
            if b.0.starts_with("no answer") || b.0.starts_with("panic at") {
                return Err(bad("an answer", format!("{}: {}", v[1], b.0)));
            }
            let again = run_op(v[1]);
            expect(v[1], &again, "in another process")
        }
        // in a process of its own, and then each of all operations
        "first" => {
            let all = ops();
            let exe = std::env::current_exe().expect("exe");
            let out = std::process::Command::new(exe).arg("op16").args(&v[1..]).args(&all).output().expect("op16");
            let t = String::from_utf8_lossy(&out.stdout).into_owned();
            let l: Vec<&str> = t.lines().collect();
            if l.len() != all.len() + v.len() - 1 {
                return Err(bad("an answer from each operation", format!("{} lines, {}", l.len(), out.status)));
            }
            for (l, op) in l[v.len() - 1..].iter().zip(&all) {
                st.cover.transitions += 1;
                let got = crate::json::parse(l).map(|j| j.str().to_owned()).unwrap_or_default();
                expect(op, &got, &format!("in a process which first ran {:?}", &v[1..]))?;
            }
            Ok(())
        }
        "seq" => {
            let body = |ops: &[&str], st: &mut Stats| {
                for (i, op) in ops.iter().enumerate() {
                    st.cover.transitions += 1;
                    let got = run_op(op);
                    expect(op, &got, &format!("after {:?}", &ops[..i]))?;
                }
                Ok(())
            };
            body(&v[1..], st)
        }
        // the same on a new thread
        "thread" => {
            let ops: Vec<String> = v[1..].iter().map(|s| s.to_string()).collect();
            st.cover.transitions += ops.len() as u64;
            std::thread::spawn(move || {
                for (i, op) in ops.iter().enumerate() {
                    let got = run_op(op);
                    expect(op, &got, &format!("after {:?}", &ops[..i]))?;
                }
                Ok(())
            })
            .join()
            .unwrap_or_else(|_| Err(bad("an answer", "the thread died")))
        }
        // outer, point, inner, [point, inner]
        "nest" => {
            let plan: Vec<(u32, String)> = v[2..].chunks(2).map(|c| (c[0].parse().expect("point"), c[1].to_owned())).collect();
            let inner: Vec<String> = plan.iter().map(|p| p.1.clone()).collect();
            MODE.with(|m| m.replace(Mode::Nest(plan[0].0, plan, vec![])));
            let r = run_op(v[1]);
            let Mode::Nest(_, _, out) = MODE.with(|m| m.replace(Mode::Off)) else { panic!("mode") };
            st.cover.transitions += 1 + out.len() as u64;
            expect(v[1], &r, &format!("with {inner:?} nested at {}", v[2]))?;
            for (op, got) in inner.iter().zip(&out) {
                if got != "-" {
                    expect(op, got, &format!("within {:?} at {}", v[1], v[2]))?;
                }
            }
            Ok(())
        }
        "baton" => {
            let sched: Vec<u8> = v[1].bytes().map(|b| b - b'0').collect();
            let ops: Vec<String> = v[2..].iter().map(|s| s.to_string()).collect();
            st.cover.transitions += sched.len() as u64;
            let (r, free) = run_baton(&sched, &ops);
            if free {
                st.outcome("a thread was blocked, the others ran freely");
            }
            for (op, got) in ops.iter().zip(&r) {
                expect(op, got, &format!("interleaved as {} with {:?}", v[1], ops))?;
            }
            Ok(())
        }
        "iter" => {
            let mut a: Vec<Vec<String>> = Vec::new();
            // each alone
            for s in &v[2..] {
                let mut f = iterate(s);
                a.push((0..12).map(|_| f()).collect());
            }
            let mut its: Vec<_> = v[2..].iter().map(|s| iterate(s)).collect();
            let mut n = vec![0usize; its.len()];
            for b in v[1].bytes() {
                let i = (b - b'0') as usize;
                st.cover.transitions += 1;
                let got = its[i]();
                if got != a[i][n[i]] {
                    return Err(bad(format!("step {} of {} is {}", n[i], v[2 + i], a[i][n[i]]), format!("{got} when iterated as {}", v[1])));
                }
                n[i] += 1;
            }
            Ok(())
        }
        "heap" => heap(&v[1..], st),
        // texts, only what is cheap to look at
        "lookups" => {
            for (i, t) in v[1..].iter().enumerate() {
                st.cover.transitions += 1;
                lookup(t).map_err(|b| bad(b.expected, format!("{} after {:?}", b.observed, &v[1..i + 1])))?;
            }
            Ok(())
        }
        // a predicate and a target, and then it and all other targets, each time with this one in between
        "targets" => {
            let (k, val) = v[1].split_once('=').expect("predicate");
            let k = crate::p_target::KINDS.into_iter().find(|x| x.key() == k).expect("key");
            let p = k.pred(val, false).expect("predicate");
            let i: usize = v[2].parse().expect("index");
            let rows = &*ROWS;
            let check = |j: usize, after: usize| -> Res {
                let want = rows[j].sets(k, val);
                let got = p.matches(&ALL_BUILTINS[j]);
                if got != want {
                    return Err(bad(format!("{} matches {}: {want}", v[1], rows[j].triple), format!("{got} after {}", rows[after].triple)));
                }
                #[cfg(feature = "lex")]
                if !matches!(k, crate::p_target::Kind::Abi | crate::p_target::Kind::Atomic | crate::p_target::Kind::Panic) {
                    if let Some(t) = &TRIPLES[j] {
                        let got = p.matches(t);
                        if got != want {
                            return Err(bad(format!("{} matches the parsed {}: {want}", v[1], rows[j].triple), format!("{got} after {}", rows[after].triple)));
                        }
                    }
                }
                Ok(())
            };
            for j in 0..rows.len() {
                st.cover.transitions += 2;
                check(i, j)?;
                check(j, i)?;
            }
            Ok(())
        }
        // a target, and a predicate with all others in between
        "predicates" => {
            let i: usize = v[1].parse().expect("index");
            let row = &ROWS[i];
            let ps = &*PREDICATES;
            let a: usize = v[2].parse().expect("predicate");
            for b in 0..ps.len() {
                st.cover.transitions += 2;
                for (x, after) in [(a, b), (b, a)] {
                    let (k, val, p) = &ps[x];
                    let (want, got) = (row.sets(*k, val), p.matches(&ALL_BUILTINS[i]));
                    if got != want {
                        return Err(bad(format!("{}={val} matches {}: {want}", k.key(), row.triple), format!("{got} after {}={}", ps[after].0.key(), ps[after].1)));
                    }
                }
            }
            Ok(())
        }
        // numbers and words, one after the other
        // how; targets made one after the other
        "made" => made(v[1], &v[2..], st),
        "values" => {
            for t in &v[1..] {
                st.cover.transitions += 1;
                crate::p_target::p15(&format!("atomic\u{1}{t}"), st).map_err(|b| bad(format!("{t:?}: {}", b.expected), format!("{} in {:?}", b.observed, &v[1..])))?;
                crate::p_target::p15(&format!("endian\u{1}{t}"), st).map_err(|b| bad(format!("{t:?}: {}", b.expected), format!("{} in {:?}", b.observed, &v[1..])))?;
            }
            Ok(())
        }
        "long" => long(v[1], st),
        "stress" => stress(v[1], st),
        k => panic!("kind {k}"),
    }
}

/// What the builtin targets list
static ROWS: LazyLock<Vec<crate::p_target::Row>> = LazyLock::new(|| ALL_BUILTINS.iter().map(crate::p_target::Row::of).collect());

#[cfg(feature = "lex")]
static TRIPLES: LazyLock<Vec<Option<cfg_expr::target_lexicon::Triple>>> = LazyLock::new(|| ALL_BUILTINS.iter().map(|t| t.triple.as_str().parse().ok()).collect());

/// Predicates with all values which targets have, and some others
static PREDICATES: LazyLock<Vec<(crate::p_target::Kind, String, TP)>> = LazyLock::new(|| {
    use crate::p_target::{KINDS, Kind};
    let mut s: std::collections::BTreeSet<(Kind, String)> = Default::default();
    for r in ROWS.iter() {
        let o = |x: &Option<String>| x.clone().unwrap_or_default();
        s.extend([(Kind::Arch, r.arch.clone()), (Kind::Os, o(&r.os)), (Kind::Abi, o(&r.abi)), (Kind::Env, o(&r.env)), (Kind::Vendor, o(&r.vendor)),
            (Kind::Panic, r.panic.clone()), (Kind::Width, r.width.to_string()), (Kind::Endian, r.endian.clone())]);
        s.extend(r.families.iter().map(|f| (Kind::Family, f.clone())));
        s.extend(r.atomics.iter().map(|f| (Kind::Atomic, f.clone())));
    }
    for k in KINDS {
        for v in ["", "none", "unknown", "x", "0", "unwind", "xunil", "24", "unxi", "linus"] {
            s.insert((k, v.into()));
        }
    }
    s.into_iter().filter_map(|(k, v)| Some((k, v.clone(), k.pred(&v, false)?))).collect()
});

/// A lookup, against the list
fn lookup(t: &str) -> Res {
    static NAMES: LazyLock<HashMap<&'static str, usize>> = LazyLock::new(|| ALL_BUILTINS.iter().enumerate().map(|(i, t)| (t.triple.as_str(), i)).collect());
    let want = NAMES.get(t).map(|i| &ALL_BUILTINS[*i]);
    let got = get_builtin_target_by_triple(t);
    if want.map(|w| &w.triple) != got.map(|w| &w.triple) || want != got {
        return Err(bad(format!("{t:?}: {:?}", want.map(|w| &w.triple)), format!("{:?}", got.map(|w| &w.triple))));
    }
    Ok(())
}

const HEAP: [&str; 4] = ["all(a, b)", "any(a, b)", "feature = \"aaaa\"", "all(aa, bb, not(cc))"];

/// Actions on two slots: p<slot><text> parses, u<slot> uses, d<slot> drops, c<slot> clones to the
/// other one, m swaps
fn heap(acts: &[&str], st: &mut Stats) -> Res {
    let mut slots: [Option<(usize, Expression)>; 2] = [None, None];
    for (i, a) in acts.iter().enumerate() {
        let b = a.as_bytes();
        let s = b.get(1).map_or(0, |x| (x - b'0') as usize);
        st.cover.transitions += 1;
        match b[0] {
            b'p' => {
                let t = (b[2] - b'0') as usize;
                match Expression::parse(HEAP[t]) {
                    Ok(e) => slots[s] = Some((t, e)),
                    Err(e) => return Err(bad("accepted", format!("{e:?} after {:?}", &acts[..i]))),
                }
            }
            b'd' => slots[s] = None,
            b'c' => slots[1 - s] = slots[s].as_ref().map(|(t, e)| (*t, e.clone())),
            b'm' => slots.swap(0, 1),
            _ => {}
        }
        for s in &slots {
            if let Some((t, e)) = s {
                let got = use_expression(e);
                expect(&format!("eval:{}", HEAP[*t]), &got, &format!("after {:?}", &acts[..=i]))?;
            }
        }
        if let [Some((t, a)), Some((u, b))] = &slots {
            if (a == b) != (t == u) {
                return Err(bad(format!("{} == {} is {}", HEAP[*t], HEAP[*u], t == u), format!("{} after {:?}", a == b, &acts[..=i])));
            }
        }
    }
    Ok(())
}

/// Many calls in one thread
fn long(kind: &str, st: &mut Stats) -> Res {
    let (k, n) = kind.split_once('-').expect("kind");
    let n: usize = n.parse().expect("number");
    let text = |i: usize| match i % 4 {
        0 => format!("all(a{i}, feature = \"f{i}\")"),
        1 => format!("any(a{i}, not(b{i}))"),
        2 => format!("k{i} = \"v\""),
        _ => format!("not(all(target_os = \"o{i}\", unix))"),
    };
    let truth = |i: usize, x: bool, y: bool| match i % 4 {
        0 => x && y,
        1 => x || !y,
        2 => x,
        _ => !(x && y),
    };
    let check = |i: usize, e: &Expression| -> Res {
        let t = text(i);
        if e.original() != t {
            return Err(bad(t, e.original()));
        }
        for b in 0..4u8 {
            // the second one of those texts
            let got = e.eval(|p| {
                let t = format!("{p:?}");
                let second = t.contains("feature") || t.contains("Feature") || t.contains("unix") || t.contains("\"b");
                b >> u8::from(second) & 1 == 1
            });
            let want = truth(i, b & 1 == 1, b & 2 == 2);
            if got != want {
                return Err(bad(format!("{t} is {want} for {b:02b}"), format!("{got}, after many others")));
            }
        }
        Ok(())
    };
    let parse = |i: usize| Expression::parse(&text(i)).map_err(|e| bad(format!("{} accepted", text(i)), format!("{e:?}, after many others")));
    match k {
        // many different expressions, held, again and again
        "distinct" => {
            let mut all = Vec::with_capacity(n);
            for i in 0..n {
                let e = parse(i)?;
                check(i, &e)?;
                all.push(e);
            }
            for (i, e) in all.iter().enumerate() {
                check(i, e)?;
                let f = parse(i)?;
                check(i, &f)?;
                if *e != f || e.predicates().collect::<Vec<_>>() != f.predicates().collect::<Vec<_>>() {
                    return Err(bad(format!("{} equal when parsed again", text(i)), "not equal"));
                }
                if let Some(o) = all.get(i + 1) {
                    if *e == *o {
                        return Err(bad(format!("{} and {} differ", text(i), text(i + 1)), "equal"));
                    }
                }
            }
            drop(all.split_off(n / 2));
            for i in 0..n / 2 {
                check(i, &all[i])?;
                check(n - i, &parse(n - i)?)?;
            }
        }
        // one expression, many times
        "same" => {
            let e = [parse(0)?, parse(1)?, parse(3)?];
            for i in 0..n {
                check([0, 1, 3][i % 3], &e[i % 3])?;
                if i % 4 == 0 {
                    check(i % 8, &parse(i % 8)?)?;
                }
            }
        }
        "reject" => {
            let want = base("eval:all(a,,b)");
            for i in 0..n {
                if Expression::parse("all(a,,b)").is_ok() {
                    return Err(bad("rejected", "accepted, after many others"));
                }
                if i % 64 == 0 {
                    let got = run_op("eval:all(a,,b)");
                    if got != want.0 {
                        return Err(bad(&want.0, got));
                    }
                }
                check(i, &parse(i)?)?;
            }
        }
        "find" => {
            for i in 0..n {
                let t = &ALL_BUILTINS[i * 7 % ALL_BUILTINS.len()];
                let f = get_builtin_target_by_triple(t.triple.as_str());
                if f.map(|f| &f.triple) != Some(&t.triple) {
                    return Err(bad(t.triple.as_str(), format!("{f:?}")));
                }
                if get_builtin_target_by_triple(&format!("x{i}")).is_some() {
                    return Err(bad("nothing", "found"));
                }
                let v: HasAtomic = (i % 65536).to_string().parse().map_err(|e| bad("atomic", format!("{e:?}")))?;
                if v != HasAtomic::IntegerSize((i % 65536) as u16) {
                    return Err(bad(i.to_string(), v.to_string()));
                }
                if i % 16 == 0 {
                    let a = [8, 16, 32, 64, 128][i / 16 % 5];
                    let p = TP::HasAtomic(HasAtomic::IntegerSize(a));
                    if p.matches(t) != t.has_atomics.iter().any(|x| *x == HasAtomic::IntegerSize(a)) {
                        return Err(bad("has_atomic as listed", "not"));
                    }
                }
            }
        }
        // all operations in several orders, many times
        "ops" => {
            let all = ops();
            let l = all.len();
            for i in 0..n {
                let op = &all[i * [1, 7, 11, 13][i / l % 4] % l];
                let got = run_op(op);
                expect(op, &got, "after many others")?;
            }
        }
        k => panic!("kind {k}"),
    }
    st.cover.transitions += n as u64;
    Ok(())
}

/// Threads running freely, a supplement: not an enumeration
fn stress(kind: &str, st: &mut Stats) -> Res {
    let (k, n) = kind.split_once('-').expect("kind");
    let n: usize = n.parse().expect("number");
    let all = Arc::new(match k {
        "all" => ops(),
        "small" => small_ops(),
        _ => vec![k.replace('_', " ").replace('\u{2}', "-").replace("x86 64", "x86_64"), "eval:any(a, b)".into()],
    });
    for op in all.iter() {
        base(op);
    }
    let threads = 8;
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (all, bar) = (all.clone(), bar.clone());
            std::thread::spawn(move || -> Res {
                bar.wait();
                for i in 0..n {
                    let op = &all[(i * [1, 1, 3, 5, 7, 11, 13, 1][t] + t / 2) % all.len()];
                    let got = run_op(op);
                    expect(op, &got, "with other threads")?;
                }
                Ok(())
            })
        })
        .collect();
    let mut r = Ok(());
    for h in hs {
        let x = h.join().unwrap_or_else(|_| Err(bad("an answer", "the thread died")));
        r = r.and(x);
    }
    st.cover.transitions += (n * threads) as u64;
    r
}

// ---- exploration --------------------------------------------------------------------------

/// All interleavings of threads with so many segments each
fn interleavings(seg: &[u32], cap: usize) -> Vec<String> {
    fn go(left: &mut Vec<u32>, cur: &mut String, out: &mut Vec<String>, cap: usize) {
        if out.len() >= cap {
            return;
        }
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push((b'0' + i as u8) as char);
                go(left, cur, out, cap);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = Vec::new();
    go(&mut seg.to_vec(), &mut String::new(), &mut out, cap);
    out
}

/// All interleavings of two threads with at most so many preemptions: a thread which is not
/// preempted runs to its end
fn preemptions(seg: [u32; 2], bound: u32) -> Vec<String> {
    fn go(left: [u32; 2], cur: usize, bound: u32, s: &mut String, out: &mut Vec<String>) {
        if left == [0, 0] {
            out.push(s.clone());
            return;
        }
        for i in 0..2 {
            if left[i] == 0 {
                continue;
            }
            let cost = u32::from(i != cur && left[cur] > 0 && !s.is_empty());
            if cost > bound {
                continue;
            }
            let mut l = left;
            l[i] -= 1;
            s.push((b'0' + i as u8) as char);
            go(l, i, bound - cost, s, out);
            s.pop();
        }
    }
    let mut out = Vec::new();
    for first in 0..2 {
        let mut s = String::new();
        if seg[first] > 0 {
            s.push((b'0' + first as u8) as char);
            let mut l = seg;
            l[first] -= 1;
            go(l, first, bound, &mut s, &mut out);
        }
    }
    out
}

/// Writable data of the library in this program, by its symbols
fn writable() -> Option<Vec<String>> {
    let exe = std::env::current_exe().ok()?;
    let o = std::process::Command::new("nm").args(["-C", exe.to_str()?]).output().ok()?;
    if !o.status.success() {
        return None;
    }
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    if !t.contains("cfg_expr::") {
        return None;
    }
    Some(
        t.lines()
            .filter_map(|l| {
                let mut p = l.splitn(3, ' ');
                let (_, k, n) = (p.next()?, p.next()?, p.next()?);
                (matches!(k, "d" | "D" | "b" | "B") && n.starts_with("cfg_expr::") && !n.contains("::builtins::")).then(|| n.to_owned())
            })
            .collect(),
    )
}

/// Output of the explorer of schedules (mc/sched)
fn sched(args: &[&str]) -> Option<String> {
    let exe = std::env::var_os("MC_SCHED")?;
    let out = std::process::Command::new(exe).args(args).output().ok()?;
    Some(String::from_utf8_lossy(&out.stdout).into_owned())
}

/// Schedules of operations on several threads, which are switched before any access to memory which
/// several of them use
fn schedules(r: &mut Run) {
    // the explorer is one build of its own
    if !cfg!(debug_assertions) || !r.violations.is_empty() {
        return;
    }
    let (seconds, bound) = if r.thorough { ("420", "3") } else { ("120", "2") };
    let t0 = std::time::Instant::now();
    let Some(out) = sched(&["explore", seconds, bound]) else {
        r.notes.push("the explorer of schedules was not built: no schedules within the library".into());
        return;
    };
    let case = out.lines().find_map(|l| Some(format!("sched\u{1}{}", l.strip_prefix("VIOLATION\t")?.split('\t').next()?)));
    let sum: Vec<&str> = out.lines().find_map(|l| l.strip_prefix("SUMMARY\t")).unwrap_or("").split('\t').collect();
    if let [configs, conflicting, full, schedules, points, switches, accesses] = sum[..] {
        r.notes.push(format!(
            "schedules within the library, up to {bound} preemptions: {configs} programs of 2 and 3 threads, of which {conflicting} write memory which another thread uses (for all others, all interleavings of their accesses are equivalent); {full} explored in full with 0, 1, … preemptions (0 if without such programs); {schedules} schedules, each in a fresh process, {points} points at which they may switch, {switches} switches, {accesses} accesses seen; {:.0} s",
            t0.elapsed().as_secs_f64()
        ));
        r.stats.traces += schedules.parse::<u64>().unwrap_or(0);
        r.stats.cover.transitions += switches.parse::<u64>().unwrap_or(0);
    }
    let cases: Vec<String> = case.into_iter().collect();
    r.space("schedules within the library", cases.len() as u64, |i, c| c.case(&cases[i as usize], |st| p16(&cases[i as usize], st)));
}

pub fn explore16(r: &mut Run) {
    match writable() {
        Some(w) if w.is_empty() => r.notes.push("the library has no writable static or thread-local data of its own: steps between the points touch nothing shared, so the interleavings at points stand for all".into()),
        Some(w) => r.notes.push(format!("writable data of the library: {w:?}; interleavings within its steps are explored as schedules within the library, and by the free running threads")),
        None => r.notes.push("no symbols".into()),
    }
    let all = ops();
    let n = all.len() as u64;
    let small = small_ops();
    let k = small.len() as u64;
    let th = r.thorough;
    let shared = threads16();
    r.space("types shared between threads", shared.len() as u64, |i, c| {
        let case = format!("share\u{1}{}", shared[i as usize].0);
        c.case(&case, |st| p16(&case, st));
    });
    r.space("each alone", n + k, |i, c| {
        let op = all.iter().chain(&small).nth(i as usize).expect("op");
        let case = format!("alone\u{1}{op}");
        c.case(&case, |st| {
            st.cover.states.insert(i);
            p16(&case, st)
        });
    });
    r.space("first in a process, then all", n, |i, c| {
        let case = format!("first\u{1}{}", all[i as usize]);
        c.case(&case, |st| p16(&case, st));
    });
    let run = |c: &mut Ctx<'_>, v: &[&str]| {
        let case = v.join("\u{1}");
        c.case(&case, |st| p16(&case, st));
    };
    r.space("all ordered pairs", n * n, |i, c| {
        let (a, b) = (&all[(i / n) as usize], &all[(i % n) as usize]);
        run(c, &["seq", a, b, a]);
    });
    r.space("all ordered pairs on a new thread", n * n, |i, c| {
        let (a, b) = (&all[(i / n) as usize], &all[(i % n) as usize]);
        run(c, &["thread", a, b, a]);
    });
    // many short texts
    let firsts: Vec<String> = {
        let mut v = token_texts(2);
        v.extend(long_texts());
        v.extend(texts());
        v.extend(BAD_TEXTS.map(String::from));
        v.iter().map(|t| format!("eval:{t}")).collect()
    };
    let seconds: Vec<String> = {
        let mut v: Vec<String> = token_texts(if th { 4 } else { 3 }).iter().map(|t| format!("eval:{t}")).collect();
        v.extend(firsts.iter().cloned());
        v.sort();
        v.dedup();
        v
    };
    let m2 = seconds.len() as u64;
    r.space("one answer for each short text", m2, |i, c| run(c, &["alone", &seconds[i as usize]]));
    r.space("all ordered pairs of short texts", firsts.len() as u64 * m2, |i, c| {
        run(c, &["seq", &firsts[(i / m2) as usize], &seconds[(i % m2) as usize]]);
    });
    // lookups
    let names: Vec<&'static str> = ALL_BUILTINS.iter().map(|t| leak(t.triple.as_str())).collect();
    let mut near: Vec<String> = names.iter().map(|n| n.to_string()).collect();
    for n in &names {
        near.push(n.chars().rev().collect());
        near.push(n[..n.len() - 1].to_owned());
        near.push(n[1..].to_owned());
        near.push(format!("{n}x"));
        near.push(format!("{}{}", &n[1..], &n[..1]));
        near.push(n.to_uppercase());
    }
    let nn = near.len() as u64;
    r.space("all ordered pairs of lookups", nn * nn, |i, c| {
        run(c, &["lookups", &near[(i / nn) as usize], &near[(i % nn) as usize]]);
    });
    r.space("lookups of all within one edit, before and after the target", names.len() as u64, |i, c| {
        let n = names[i as usize];
        crate::p_target::edits(n, &mut |t| run(c, &["lookups", n, t, n, t]));
        // and with two characters exchanged or shifted, which keeps sums
        let b: Vec<char> = n.chars().collect();
        for x in 0..b.len() {
            for y in 0..b.len() {
                let mut d = b.clone();
                d.swap(x, y);
                let t: String = d.iter().collect();
                run(c, &["lookups", n, &t, n]);
                let (Some(p), Some(q)) = (char::from_u32(b[x] as u32 + 1), char::from_u32(b[y] as u32 - 1)) else { continue };
                if x != y {
                    let mut d = b.clone();
                    d[x] = p;
                    d[y] = q;
                    let t: String = d.iter().collect();
                    run(c, &["lookups", n, &t, n]);
                }
            }
        }
    });
    if th {
        let g = names.len() as u64;
        r.space("all triples of lookups", g * g * g, |i, c| {
            run(c, &["lookups", names[(i / g / g) as usize], names[(i / g % g) as usize], names[(i % g) as usize]]);
        });
    }
    // matching
    let ps = &*PREDICATES;
    let g = names.len() as u64;
    r.space("each predicate with all pairs of targets", ps.len() as u64 * g, |i, c| {
        let p = &ps[(i / g) as usize];
        run(c, &["targets", &format!("{}={}", p.0.key(), p.1), &(i % g).to_string()]);
    });
    let np = ps.len() as u64;
    r.space("each target with all pairs of predicates", g * np, |i, c| {
        run(c, &["predicates", &(i / np).to_string(), &(i % np).to_string()]);
    });
    let made: Vec<String> = (0..VARIANTS.len()).map(|i| i.to_string()).collect();
    let nm = made.len() as u64;
    r.space("all triples of targets made by hand, in five ways", nm * nm * nm * 5, |i, c| {
        let m = i / 5;
        run(c, &["made", ["fresh", "place", "kept", "by predicate", "static"][(i % 5) as usize], &made[(m / nm / nm) as usize], &made[(m / nm % nm) as usize], &made[(m % nm) as usize]]);
    });
    let mut vs: Vec<String> = (0..300).map(|n| n.to_string()).collect();
    vs.extend((65_500..65_600).map(|n| n.to_string()));
    vs.extend(["ptr", "", "big", "little", "Ptr", "rtp", "gib", "08", "+8", "x", "80", "64 ", " 64", "46", "é", "4294967304"].map(String::from));
    let nv = vs.len() as u64;
    r.space("all ordered pairs of values", nv * nv, |i, c| run(c, &["values", &vs[(i / nv) as usize], &vs[(i % nv) as usize]]));
    let deep: u64 = if th { 5 } else { 4 };
    r.space("all sequences of small operations", k * k * k, |i, c| {
        let mut v = vec!["seq"];
        let mut j = i;
        for _ in 0..3 {
            v.push(&small[(j % k) as usize]);
            j /= k;
        }
        run(c, &v);
    });
    r.space("all longer sequences of a few operations", 9u64.pow(deep as u32), |i, c| {
        let mut v = vec!["seq"];
        let mut j = i;
        for _ in 0..deep {
            v.push(&small[[0, 1, 4, 6, 9, 11, 13, 20, 24][(j % 9) as usize]]);
            j /= 9;
        }
        run(c, &v);
    });
    // two slots
    let mut acts: Vec<String> = Vec::new();
    for s in 0..2 {
        for t in 0..HEAP.len() {
            acts.push(format!("p{s}{t}"));
        }
        acts.push(format!("d{s}"));
        acts.push(format!("c{s}"));
    }
    acts.push("m0".into());
    let na = acts.len() as u64;
    let hd = if th { 5 } else { 4 };
    r.space("all sequences of parsing, cloning, moving and dropping", na.pow(hd), |i, c| {
        let mut v = vec!["heap"];
        let mut j = i;
        for _ in 0..hd {
            v.push(&acts[(j % na) as usize]);
            j /= na;
        }
        run(c, &v);
    });
    // nested
    let points: Vec<u32> = all.iter().map(|o| base(o).1).collect();
    r.space("each within each, at every point", n * n, |i, c| {
        let (o, inner) = ((i / n) as usize, &all[(i % n) as usize]);
        let p = points[o];
        // of very long operations, the first and last points
        for at in (0..p).filter(|at| th || p <= 40 || *at < 20 || *at + 20 > p) {
            run(c, &["nest", &all[o], &at.to_string(), inner]);
        }
    });
    let small_points: Vec<u32> = small.iter().map(|o| base(o).1).collect();
    let some: Vec<usize> = if th { (0..small.len()).collect() } else { vec![0, 1, 4, 7, 9, 11, 13, 15, 16, 20, 24] };
    let m = some.len() as u64;
    r.space("two levels deep, at every point", m * m * m, |i, c| {
        let (a, b, d) = (some[(i % m) as usize], some[(i / m % m) as usize], &small[some[(i / m / m) as usize]]);
        for p in 0..small_points[a] {
            for q in 0..small_points[b] {
                run(c, &["nest", &small[a], &p.to_string(), &small[b], &q.to_string(), d]);
            }
        }
    });
    // iterators by turns
    let its: Vec<String> = ["all(a, b, c)", "any(b, a, c)", "all(aa, bb, unix)", "feature = \"aaaa\"", "not(any(a, target_os = \"x\"))", "any()"]
        .iter().flat_map(|t| [format!("lex:{t}"), format!("pred:{t}")])
        .chain(["lex:a \"b", "lex:é", "lex:a,,b)"].map(String::from)).collect();
    let ni = its.len() as u64;
    let steps = if th { 6 } else { 5 };
    let sched = interleavings(&[steps, steps], usize::MAX);
    let n3 = interleavings(&[3, 3, 3], usize::MAX);
    r.space("two iterators by turns", ni * ni, |i, c| {
        let (a, b) = (&its[(i / ni) as usize], &its[(i % ni) as usize]);
        for s in &sched {
            run(c, &["iter", s, a, b]);
        }
    });
    if th {
        r.space("three iterators by turns", ni * ni * ni, |i, c| {
            let (a, b, d) = (&its[(i / ni / ni) as usize], &its[(i / ni % ni) as usize], &its[(i % ni) as usize]);
            for s in n3.iter().step_by(7) {
                run(c, &["iter", s, a, b, d]);
            }
        });
    }
    // threads
    let few: Vec<&str> = vec!["term:all(a, b)", "term:not(a)", "num:65536", "panic:0|all(a, b, c)", "fams:x,a", "atoms:8,ptr", "lex:a", "lex:any(x)", "eval:not(a, b)", "match:x86_64-unknown-linux-gnu|unix", "half:1|all(b, a, c)", "find:zzz"];
    let mut pairs: Vec<(String, String, u32)> = Vec::new();
    for a in &few {
        for b in &few {
            pairs.push((a.to_string(), b.to_string(), u32::MAX));
        }
    }
    for a in &small {
        for b in &small {
            pairs.push((a.clone(), b.clone(), if th { 3 } else { 2 }));
        }
    }
    r.space("two threads, all interleavings at points", pairs.len() as u64, |i, c| {
        let (a, b, bound) = &pairs[i as usize];
        let seg = [base(a).1 + 1, base(b).1 + 1];
        let cap = if th { 20_000 } else { 600 };
        let s = if *bound == u32::MAX && seg[0] + seg[1] <= 16 { interleavings(&seg, usize::MAX) } else { preemptions(seg, (*bound).min(2)) };
        let step = s.len().div_ceil(cap);
        if step > 1 {
            // fewer preemptions, but all of these
            for s in preemptions(seg, 1) {
                run(c, &["baton", &s, a, b]);
            }
        } else {
            for s in &s {
                run(c, &["baton", s, a, b]);
            }
        }
    });
    let trio = ["term:not(a)", "num:65536", "lex:a", "fams:x", "match:x86_64-unknown-linux-gnu|unix", "eval:b"];
    let nt = trio.len() as u64;
    r.space("three threads, all interleavings at points", nt * nt * nt, |i, c| {
        let v = [trio[(i % nt) as usize], trio[(i / nt % nt) as usize], trio[(i / nt / nt) as usize]];
        let seg: Vec<u32> = v.iter().map(|o| base(o).1 + 1).collect();
        if seg.iter().sum::<u32>() <= if th { 11 } else { 9 } {
            for s in interleavings(&seg, usize::MAX) {
                run(c, &["baton", &s, v[0], v[1], v[2]]);
            }
        }
    });
    // long
    let m = if th { 10 } else { 1 };
    let longs = [format!("distinct-{}", 40_000 * m), format!("same-{}", 400_000 * m), format!("reject-{}", 150_000 * m), format!("find-{}", 300_000 * m), format!("ops-{}", 40_000 * m), format!("distinct-{}", 3_000)];
    r.space("long histories", longs.len() as u64, |i, c| run(c, &["long", &longs[i as usize]]));
    let stresses = [format!("all-{}", 6000 * m), format!("small-{}", 40_000 * m), format!("eval:all(a,_b)-{}", 60_000 * m), format!("shared:3-{}", 40_000 * m), format!("eval:all(a,_é)-{}", 40_000 * m), format!("find:x86_64-unknown-linux-gnu-{}", 30_000 * m)];
    let sr = r.threads;
    schedules(r);
    r.threads = 1;
    r.space("threads running freely", stresses.len() as u64, |i, c| {
        let s = &stresses[i as usize];
        let (k, n) = s.rsplit_once('-').expect("number");
        // names contain no further dash
        run(c, &["stress", &format!("{}-{n}", k.replace('-', "\u{2}"))]);
    });
    r.threads = sr;
}
