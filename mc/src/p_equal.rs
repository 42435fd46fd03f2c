//! P20: predicates, tokens and errors are equal exactly when they are the same.

use crate::engine::*;
use crate::mine;
use crate::model::{self, P, R};
use crate::p_target::{Kind, UNLIKE, leak, unlike};
use cfg_expr::error::{ParseError, Reason};
use cfg_expr::expr::lexer::{Lexer, Token};
use cfg_expr::expr::{Func, TargetPredicate as TP};
use cfg_expr::targets::*;
use cfg_expr::{Expression, Predicate};
use std::cell::LazyCell;

const KEYS: &[&str] = &[
    "target_abi", "target_arch", "target_endian", "target_env", "target_family", "target_has_atomic", "target_os", "panic",
    "target_pointer_width", "target_vendor", "feature", "target_feature", "key", "Key", "os", "features",
];
const VALUES: &[&str] = &[
    "", "a", "A", "b", "aa", "ab", "ba", "á", "a\u{301}", " a", "a ", "a b", "linux", "Linux", "unix", "windows", "wasm", "test", "unknown", "none", "little",
    "big", "ptr", "1", "8", "08", "+8", "16", "32", "64", "128", "255", "256", "65535", "abort", "unwind", "gnu", "eabi", "x86_64", "x86-64",
    "xxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxy", "yxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxyxxxxxxxxxxxxxxxx",
];
const FLAGS: &[&str] = &["unix", "windows", "test", "debug_assertions", "proc_macro", "x", "X", "xx", "x1", "_", "_x", "any1", "allx", "cfg", "a", "b", "aa", "linux", "key"];

fn texts() -> Vec<String> {
    let mut v: Vec<String> = FLAGS.iter().map(|f| f.to_string()).collect();
    v.extend(mine::LIB.words.iter().filter(|w| w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && model::parse(w, None).is_ok_and(|m| m.preds.len() == 1)).take(40).cloned());
    v.sort();
    v.dedup();
    for k in KEYS {
        for x in VALUES {
            let t = format!("{k} = \"{x}\"");
            if model::parse(&t, None).is_ok() {
                v.push(t);
            }
        }
    }
    v
}

/// Predicates by how they come about: p as parsed, q as parsed among others, o and s built from owned
/// and static text, f and k as a flag and a pair whatever the key
fn specs() -> Vec<String> {
    let mut v = Vec::new();
    for t in texts() {
        for m in ["p", "q", "o", "s"] {
            v.push(format!("{m}:{t}"));
        }
    }
    v.extend(FLAGS.iter().chain(KEYS).map(|f| format!("f:{f}")));
    for k in KEYS.iter().chain(FLAGS) {
        for x in ["", "a", "linux", "8", "unix"] {
            v.push(format!("k:{k}={x}"));
        }
    }
    v
}

fn build(p: &P, stat: bool) -> Predicate<'static> {
    let t = |k: Kind, v: &str| Predicate::Target(k.pred(v, stat).expect("value"));
    match p {
        P::Abi(v) => t(Kind::Abi, v),
        P::Arch(v) => t(Kind::Arch, v),
        P::Endian(b) => t(Kind::Endian, if *b { "big" } else { "little" }),
        P::Env(v) => t(Kind::Env, v),
        P::Family(v) => t(Kind::Family, v),
        P::HasAtomic(None) => t(Kind::Atomic, "ptr"),
        P::HasAtomic(Some(n)) => t(Kind::Atomic, &n.to_string()),
        P::Os(v) => t(Kind::Os, v),
        P::Panic(v) => t(Kind::Panic, v),
        P::Width(n) => t(Kind::Width, &n.to_string()),
        P::Vendor(v) => t(Kind::Vendor, v),
        P::Test => Predicate::Test,
        P::DebugAssertions => Predicate::DebugAssertions,
        P::ProcMacro => Predicate::ProcMacro,
        P::Feature(v) => Predicate::Feature(leak(v)),
        P::TargetFeature(v) => Predicate::TargetFeature(leak(v)),
        P::Flag(v) => Predicate::Flag(leak(v)),
        P::KeyValue(k, v) => Predicate::KeyValue { key: leak(k), val: leak(v) },
    }
}

fn nth(text: &str, n: usize) -> Predicate<'static> {
    let e: &'static Expression = Box::leak(Box::new(Expression::parse(text).unwrap_or_else(|e| panic!("{e}"))));
    e.predicates().nth(n).expect("predicate")
}

fn of_spec(s: &str) -> (P, Predicate<'static>) {
    let (m, t) = s.split_once(':').expect("spec");
    match m {
        "f" => (P::Flag(t.into()), Predicate::Flag(leak(t))),
        "k" => {
            let (k, v) = t.split_once('=').expect("pair");
            (P::KeyValue(k.into(), v.into()), Predicate::KeyValue { key: leak(k), val: leak(v) })
        }
        _ => {
            let p = model::parse(t, None).expect("predicate").preds.remove(0);
            let i = match m {
                "p" => nth(t, 0),
                // whatever the order in which they are listed
                "q" => {
                    let text = format!("all(not(all()), any( {t} ,{t},), {t})");
                    nth(&text, 1)
                }
                m => build(&p, m == "s"),
            };
            (p, i)
        }
    }
}

// ---- tokens -------------------------------------------------------------------------------

fn token_specs() -> Vec<String> {
    let mut v: Vec<String> = ["=", "all", "any", "not", "(", ")", ",", "l=", "lall", "lany", "lnot", "l(", "l)", "l,"].map(String::from).into();
    for x in VALUES {
        v.push(format!("v{x}"));
        v.push(format!("lv{x}"));
    }
    for x in FLAGS.iter().chain(&["all", "any", "not"]) {
        v.push(format!("k{x}"));
        if !["all", "any", "not"].contains(x) {
            v.push(format!("lk{x}"));
        }
    }
    v
}

/// The token, and what it is: the kind and the text
fn token(s: &str) -> (String, Token<'static>) {
    let lexed = s.strip_prefix('l');
    let s = lexed.unwrap_or(s);
    let what = s.to_owned();
    let (k, rest) = s.split_at(1);
    let (text, built) = match (s, k) {
        ("=", _) => ("=".into(), Token::Equals),
        ("all", _) => ("all".into(), Token::All),
        ("any", _) => ("any".into(), Token::Any),
        ("not", _) => ("not".into(), Token::Not),
        ("(", _) => ("(".into(), Token::OpenParen),
        (")", _) => (")".into(), Token::CloseParen),
        (",", _) => (",".into(), Token::Comma),
        (_, "v") => (format!("\"{rest}\""), Token::Value(leak(rest))),
        _ => (rest.to_owned(), Token::Key(leak(rest))),
    };
    match lexed {
        None => (what, built),
        Some(_) => (what, Lexer::new(leak(&format!("  {text} "))).next().expect("token").expect("token").token),
    }
}

// ---- errors -------------------------------------------------------------------------------

const WORDS: &[&str] = &["a", "\"v\"", "=", "all", "not", "(", ")", ",", "unix", "é"];

fn error_specs() -> Vec<String> {
    let mut v = vec![String::from("parsed:")];
    let n = WORDS.len();
    for len in 1..=3u32 {
        for i in 0..n.pow(len) {
            let t: Vec<&str> = (0..len).map(|d| WORDS[i / n.pow(d) % n]).collect();
            let t = t.join(" ");
            if model::parse(&t, None).is_err() {
                v.push(format!("parsed:{t}"));
            }
        }
    }
    for t in ["\"a", "a = \"", "unix = \"v\"", "feature", "target_x = \"y\"", "target_endian = \"x\"", "target_pointer_width = \"a\"", "target_pointer_width = \"256\"", "target_has_atomic = \"x\"", "not(a, b)", "not(a, b, c)", "not(c, b, c)", "a b", "a c"] {
        v.push(format!("parsed:{t}"));
    }
    for o in 0..4 {
        for s in 0..5 {
            for r in 0..REASONS {
                v.push(format!("built:{o} {s} {r}"));
            }
        }
    }
    v
}

const REASONS: usize = 22;
fn reason(i: usize) -> Reason {
    match i {
        0 => Reason::InvalidCharacters,
        1 => Reason::UnclosedParens,
        2 => Reason::UnopenedParens,
        3 => Reason::UnclosedQuotes,
        4 => Reason::UnopenedQuotes,
        5 => Reason::Empty,
        6 => Reason::InvalidInteger,
        7 => Reason::MultipleRootPredicates,
        8 => Reason::InvalidHasAtomic,
        9 => Reason::UnknownBuiltin,
        10 => Reason::InvalidNot(0),
        11 => Reason::InvalidNot(2),
        12 => Reason::InvalidNot(258),
        13 => Reason::InvalidNot(3),
        14 => Reason::Unexpected(&[]),
        15 => Reason::Unexpected(&[")"]),
        16 => Reason::Unexpected(&[")", ","]),
        17 => Reason::Unexpected(&[",", ")"]),
        18 => Reason::Unexpected(&[")", ",", ","]),
        19 => Reason::Unexpected(&["("]),
        // the same at another place
        20 => Reason::Unexpected(Box::leak(vec![leak(")"), leak(",")].into_boxed_slice())),
        _ => Reason::InvalidNot(0),
    }
}

type Same = (String, std::ops::Range<usize>, R);
fn error(s: &str) -> (Same, ParseError) {
    let e = match s.split_once(':').expect("spec") {
        ("parsed", t) => Expression::parse(t).expect_err("rejected"),
        (_, t) => {
            let v: Vec<usize> = t.split(' ').map(|n| n.parse().expect("number")).collect();
            ParseError { original: ["", "a", "ab", "a b"][v[0]].to_owned(), span: [0..0, 0..1, 1..1, 0..3, 1..3][v[1]].clone(), reason: reason(v[2]) }
        }
    };
    ((e.original.clone(), e.span.clone(), R::from_impl(&e.reason)), e)
}

// ---- comparing ----------------------------------------------------------------------------

#[allow(clippy::nonminimal_bool)]
fn same<T: PartialEq + std::fmt::Debug>(a: &T, b: &T, want: bool) -> Res {
    let got = (a == b, b == a, !(a != b), !(b != a));
    if got != (want, want, want, want) {
        return Err(bad(format!("{}", if want { "equal" } else { "different" }), format!("{a:?} and {b:?}: a == b, b == a, not a != b, not b != a are {got:?}")));
    }
    Ok(())
}

/// Each kind is compared on its own as well
fn preds(a: &(P, Predicate<'_>), b: &(P, Predicate<'_>), st: &mut Stats) -> Res {
    let want = a.0 == b.0;
    st.outcome(if want { "the same" } else { "different" });
    same(&a.1, &b.1, want)?;
    if let (Predicate::Target(x), Predicate::Target(y)) = (&a.1, &b.1) {
        same(x, y, want)?;
        same(&x.clone(), y, want)?;
        match (x, y) {
            (TP::Os(x), TP::Os(y)) => same(x, y, want)?,
            (TP::Endian(x), TP::Endian(y)) => same(x, y, want)?,
            (TP::HasAtomic(x), TP::HasAtomic(y)) => same(x, y, want)?,
            _ => {}
        }
    }
    Ok(())
}

/// Reasons which differ print differently
fn reasons(a: &(Same, ParseError), b: &(Same, ParseError)) -> Res {
    let want = a.0.2 == b.0.2;
    same(&a.1.reason, &b.1.reason, want)?;
    same(&a.1.reason.to_string(), &b.1.reason.to_string(), want)
}

thread_local! {
    // not shared between threads: whether that is possible is another question
    static PREDS: LazyCell<Vec<(String, (P, Predicate<'static>))>> = LazyCell::new(|| specs().into_iter().map(|s| { let p = of_spec(&s); (s, p) }).collect());
    static ERRORS: LazyCell<Vec<(String, (Same, ParseError))>> = LazyCell::new(|| error_specs().into_iter().map(|s| { let e = error(&s); (s, e) }).collect());
}

fn func(s: &str) -> Func {
    match s.split_at(1) {
        ("a", n) => Func::All(n.parse().expect("number")),
        ("o", n) => Func::Any(n.parse().expect("number")),
        _ => Func::Not,
    }
}

pub fn p20(case: &str, st: &mut Stats) -> Res {
    let v: Vec<&str> = case.split('\u{1}').collect();
    st.traces += 1;
    match v[0] {
        "preds" => preds(&guarded(|| of_spec(v[1]))?, &guarded(|| of_spec(v[2]))?, st),
        "tokens" => {
            let (a, b) = guarded(|| (token(v[1]), token(v[2])))?;
            let want = a.0 == b.0;
            same(&a.1, &b.1, want)?;
            same(&a.1.clone(), &b.1, want)
        }
        "errors" => {
            let (a, b) = (guarded(|| error(v[1]))?, guarded(|| error(v[2]))?);
            same(&a.1, &b.1, a.0 == b.0)?;
            reasons(&a, &b)
        }
        "funcs" => {
            let (a, b) = (func(v[1]), func(v[2]));
            same(&a, &b, v[1] == v[2])?;
            let (x, y) = (a.cmp(&b), b.cmp(&a));
            if x != y.reverse() || x.is_eq() != (a == b) || a.partial_cmp(&b) != Some(x) {
                return Err(bad("an order in step with equality", format!("{a:?} and {b:?}: {x:?} and {y:?}")));
            }
            Ok(())
        }
        "atomics" => {
            let e = |s: &str| s.parse::<HasAtomic>().err();
            let (Some(a), Some(b)) = (e(v[1]), e(v[2])) else { return Ok(()) };
            same(&a, &b, v[1] == v[2])?;
            same(&a.clone(), &b, v[1] == v[2])?;
            same(&a.to_string(), &b.to_string(), v[1] == v[2])
        }
        // two long texts which differ in at most one place
        "long" => {
            let (n, i, j): (usize, usize, usize) = (num(v[2]), num(v[3]), num(v[4]));
            let u = num(v[5]);
            let (a, b) = (unlike(n, u, i), unlike(n, u, j));
            let of = |t: &str| of_spec(&v[1].replace('#', t));
            preds(&guarded(|| of(&a))?, &guarded(|| of(&b))?, st)
        }
        // how often a predicate is met in a text, asked with ==
        _ => PREDS.with(|all| {
            let (p, x) = of_spec(v[1]);
            let listed: Vec<&str> = all.iter().filter_map(|(s, _)| s.strip_prefix("p:")).collect();
            let text = format!("any({}, not(all({})), {})", listed.join(","), listed.join(" , "), listed[0]);
            let want = model::parse(&text, None).expect("text").preds.iter().filter(|q| **q == p).count();
            let e = Expression::parse(&text).map_err(|e| bad("accepted", format!("{:?}", e.reason)))?;
            let mut n = 0;
            e.eval(|q| {
                n += usize::from(*q == x);
                true
            });
            let m = e.predicates().filter(|q| *q == x).count();
            if (n, m) != (want, want) {
                return Err(bad(format!("{want} occurrences"), format!("{n} when evaluated, {m} when listed")));
            }
            Ok(())
        }),
    }
}

fn num(s: &str) -> usize {
    s.parse().expect("number")
}

pub fn explore20(r: &mut Run) {
    let n = specs().len();
    r.space("all pairs of predicates", n as u64, |i, c| {
        PREDS.with(|all| {
            let a = &all[i as usize];
            for b in all.iter() {
                let case = format!("preds\u{1}{}\u{1}{}", a.0, b.0);
                c.case(&case, |st| {
                    st.traces += 1;
                    st.cover.states.insert(i);
                    st.cover.transitions += 1;
                    preds(&a.1, &b.1, st)
                });
            }
        });
    });
    let one: Vec<String> = specs().into_iter().filter(|s| !s.starts_with("q:")).collect();
    r.space("predicates met in a text", one.len() as u64, |i, c| {
        let case = format!("met\u{1}{}", one[i as usize]);
        c.case(&case, |st| p20(&case, st));
    });
    let max = if r.thorough { 80 } else { 40 };
    let forms = ["f:#", "k:#=v", "p:k = \"#\"", "q:feature = \"#\"", "o:target_os = \"#\"", "s:target_arch = \"#\"", "p:target_env = \"#\"", "p:target_feature = \"#\"", "p:panic = \"#\""];
    r.space("long texts which differ in one place", (max * forms.len()) as u64, |i, c| {
        let (n, f) = (i as usize / forms.len() + 1, forms[i as usize % forms.len()]);
        for a in 0..=n {
            for b in [0, a.saturating_sub(1), a, a + 1, n] {
                for u in 0..UNLIKE.len() {
                    let case = format!("long\u{1}{f}\u{1}{n}\u{1}{a}\u{1}{b}\u{1}{u}");
                    c.case(&case, |st| p20(&case, st));
                }
            }
        }
    });
    let lens = [63usize, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096];
    r.space("longer texts which differ in one place", (lens.len() * forms.len()) as u64, |i, c| {
        let (n, f) = (lens[i as usize / forms.len()], forms[i as usize % forms.len()]);
        for b in 0..16 {
            for u in 0..UNLIKE.len() {
                let case = format!("long\u{1}{f}\u{1}{n}\u{1}{n}\u{1}{}\u{1}{u}", b * n / 15);
                c.case(&case, |st| p20(&case, st));
            }
        }
    });
    let ts = token_specs();
    r.space("all pairs of tokens", (ts.len() * ts.len()) as u64, |i, c| {
        let case = format!("tokens\u{1}{}\u{1}{}", ts[i as usize / ts.len()], ts[i as usize % ts.len()]);
        c.case(&case, |st| p20(&case, st));
    });
    let m = error_specs().len();
    r.space("all pairs of errors", m as u64, |i, c| {
        ERRORS.with(|all| {
            let a = &all[i as usize];
            for b in all.iter() {
                let case = format!("errors\u{1}{}\u{1}{}", a.0, b.0);
                c.case(&case, |st| {
                    st.traces += 1;
                    st.cover.states.insert(1 << 32 | i);
                    st.cover.transitions += 1;
                    same(&a.1.1, &b.1.1, a.1.0 == b.1.0)?;
                    reasons(&a.1, &b.1)
                });
            }
        });
    });
    let mut fs: Vec<String> = vec!["n0".into()];
    for k in ["a", "o"] {
        fs.extend((0..40u64).chain([255, 256, 257, 65535, 65536, u64::from(u32::MAX), 1 << 32, u64::MAX]).map(|n| format!("{k}{n}")));
    }
    r.space("all pairs of functions", (fs.len() * fs.len()) as u64, |i, c| {
        let case = format!("funcs\u{1}{}\u{1}{}", fs[i as usize / fs.len()], fs[i as usize % fs.len()]);
        c.case(&case, |st| p20(&case, st));
    });
    r.space("all pairs of errors of atomics", (VALUES.len() * VALUES.len()) as u64, |i, c| {
        let case = format!("atomics\u{1}{}\u{1}{}", VALUES[i as usize / VALUES.len()], VALUES[i as usize % VALUES.len()]);
        c.case(&case, |st| p20(&case, st));
    });
}
