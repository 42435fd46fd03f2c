//! P06: every respelling of a text means the same. P17: an expression is its text.

use crate::engine::*;
use crate::p_target::{UNLIKE, unlike};
use crate::model::{self, LexErr, P, T, Tok, WHITE_SPACE};
use crate::p_text::short;
use crate::texts;
use cfg_expr::Expression;
use cfg_expr::expr::Logic;
use std::cell::RefCell;

// ---- what is observed of a text ---------------------------------------------------------

/// Six assignments' worth of truth table: variables are numbered by the order of the distinct
/// predicates sorted, modulo 6
#[derive(Debug)]
struct Table(u64);

impl Logic for Table {
    fn top() -> Self {
        Table(!0)
    }
    fn bottom() -> Self {
        Table(0)
    }
    fn and(self, o: Self) -> Self {
        Table(self.0 & o.0)
    }
    fn or(self, o: Self) -> Self {
        Table(self.0 | o.0)
    }
    fn not(self) -> Self {
        Table(!self.0)
    }
}

const COLUMNS: [u64; 6] = [
    0xaaaa_aaaa_aaaa_aaaa,
    0xcccc_cccc_cccc_cccc,
    0xf0f0_f0f0_f0f0_f0f0,
    0xff00_ff00_ff00_ff00,
    0xffff_0000_ffff_0000,
    0xffff_ffff_0000_0000,
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seen {
    Accepted(Vec<P>, u64),
    /// reason, and where in terms of tokens
    Rejected(String, String),
}

pub fn predicates(e: &Expression) -> Vec<P> {
    let mut v: Vec<P> = e.predicates().map(|p| model::from_impl(&p)).collect();
    v.sort();
    v
}

pub fn table(e: &Expression, preds: &[P]) -> u64 {
    let mut d: Vec<&P> = preds.iter().collect();
    d.dedup();
    e.eval(|p| {
        let p = model::from_impl(p);
        match d.binary_search(&&p) {
            Ok(i) => Table(COLUMNS[i % 6] ^ (i as u64 / 6).wrapping_mul(0x9e37_79b9_7f4a_7c15)),
            Err(_) => Table(0),
        }
    })
    .0
}

fn see(text: &str, toks: &[Tok], tail: Option<usize>) -> Seen {
    match Expression::parse(text) {
        Ok(e) => {
            let p = predicates(&e);
            let t = table(&e, &p);
            Seen::Accepted(p, t)
        }
        Err(e) => {
            let len = model::strip(text).len();
            let (a, b) = (e.span.start, e.span.end);
            let reason = format!("{:?}", e.reason);
            let at = match e.reason {
                cfg_expr::error::Reason::Empty | cfg_expr::error::Reason::MultipleRootPredicates => {
                    if (a, b) == (0, len) { "all".into() } else { format!("{a}..{b} of {len}") }
                }
                _ => {
                    let s = toks
                        .iter()
                        .position(|t| t.start == a)
                        .map(|i| format!("from {i}"))
                        .or_else(|| toks.iter().position(|t| t.t == T::Value && t.start + 1 == a).map(|i| format!("within {i}")))
                        .or_else(|| (tail == Some(a)).then(|| "from the last".to_owned()))
                        .or_else(|| (a == len).then(|| "end".to_owned()))
                        .unwrap_or_else(|| format!("{a} of {len}"));
                    let t = match e.reason {
                        cfg_expr::error::Reason::UnclosedParens | cfg_expr::error::Reason::UnclosedQuotes => {
                            if b == len { "end".to_owned() } else { format!("{b} of {len}") }
                        }
                        _ if a == len && b == len => "end".into(),
                        _ => toks
                            .iter()
                            .position(|t| t.end == b)
                            .map(|i| format!("to {i}"))
                            .or_else(|| toks.iter().position(|t| t.t == T::Value && t.end - 1 == b).map(|i| format!("within {i}")))
                            .or_else(|| tail.filter(|t| b > *t).map(|t| format!("the last +{}", b - t)))
                            .unwrap_or_else(|| format!("{b} of {len}")),
                    };
                    format!("{s} {t}")
                }
            };
            Seen::Rejected(reason, at)
        }
    }
}

// ---- P06 --------------------------------------------------------------------------------

struct Pieces<'a> {
    toks: Vec<(T, &'a str)>,
    /// what follows if it cannot be tokenized
    tail: Option<&'a str>,
    gaps: Vec<&'a str>,
}

fn pieces(s: &str) -> Pieces<'_> {
    let mut p = Pieces { toks: vec![], tail: None, gaps: vec![] };
    let mut at = 0;
    for t in model::lexer(s) {
        match t {
            Ok(t) => {
                p.gaps.push(&s[at..t.start]);
                p.toks.push((t.t, &s[t.start..t.end]));
                at = t.end;
            }
            Err(LexErr::Quotes(o) | LexErr::Char(o, _)) => {
                p.gaps.push(&s[at..o]);
                p.tail = Some(&s[o..]);
                return p;
            }
        }
    }
    p.gaps.push(&s[at..]);
    p
}

fn word(t: T) -> bool {
    matches!(t, T::Key | T::All | T::Any | T::Not)
}

/// Puts a text together; words stay apart
fn join(p: &Pieces<'_>, gap: impl Fn(usize) -> Option<String>, toks: &mut Vec<Tok>) -> (String, Option<usize>) {
    let mut s = String::new();
    toks.clear();
    for i in 0..p.gaps.len() {
        let g = gap(i).unwrap_or_else(|| p.gaps[i].to_owned());
        let apart = i > 0
            && g.is_empty()
            && word(p.toks[i - 1].0)
            && match p.toks.get(i) {
                Some((t, _)) => word(*t),
                // digits would continue the word
                None => p.tail.is_some_and(|t| t.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')),
            };
        s.push_str(if apart { " " } else { &g });
        if let Some((t, x)) = p.toks.get(i) {
            toks.push(Tok { t: *t, start: s.len(), end: s.len() + x.len() });
            s.push_str(x);
        }
    }
    let tail = p.tail.map(|t| {
        let a = s.len();
        s.push_str(t);
        a
    });
    (s, tail)
}

fn same(a: &str, sa: &Seen, b: &str, sb: &Seen) -> Res {
    if sa == sb {
        return Ok(());
    }
    Err(bad(
        format!("the same for {:?} and {:?}: {}", short(a), short(b), short(&format!("{sa:?}"))),
        format!("for {:?}: {}", short(b), short(&format!("{sb:?}"))),
    ))
}

/// `much`: every kind of whitespace at every place
fn p06_with(text: &str, st: &mut Stats, much: bool) -> Res {
    if model::strip(text).len() != text.len() {
        return Ok(());
    }
    let p = pieces(text);
    if p.toks.len() > 3000 {
        return p06_long(text, &p, st);
    }
    let mut toks = Vec::new();
    let (base, tail) = join(&p, |_| None, &mut toks);
    if base != text {
        return Err(bad("", "harness: text is not put together again"));
    }
    let s0 = see(text, &toks, tail);
    st.traces += 1;
    st.outcome(match &s0 {
        Seen::Accepted(..) => "accepted",
        Seen::Rejected(..) => "rejected",
    });
    st.cover.transitions += p.toks.len() as u64;
    // the state is the kinds of tokens
    let mut h = 7u64;
    for (t, _) in &p.toks {
        h = (h ^ (*t as u64 + 1)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(31);
    }
    st.cover.states.insert(h);
    let looks_wrapped = |t: &str| model::strip(t).len() != t.len();

    let mut check = |gap: &dyn Fn(usize) -> Option<String>| -> Res {
        let (t, tail) = join(&p, gap, &mut toks);
        let w = format!("cfg({t})");
        let s = see(&w, &toks, tail);
        st.traces += 1;
        same(text, &s0, &w, &s)?;
        if !looks_wrapped(&t) {
            let s = see(&t, &toks, tail);
            st.traces += 1;
            same(text, &s0, &t, &s)?;
        }
        Ok(())
    };
    check(&|_| None)?;
    check(&|_| Some(String::new()))?;
    for w in [" ", "\n", "\t", "\r\n", "\u{2003}", "  \u{a0}\n\t\u{3000}"] {
        check(&|_| Some(w.to_owned()))?;
    }
    let spaces: &[char] = if much { &WHITE_SPACE } else { &[' ', '\n', '\u{a0}', '\u{2003}'] };
    for i in 0..p.gaps.len() {
        if !p.gaps[i].is_empty() {
            check(&|k| (k == i).then(String::new))?;
        }
        for c in spaces {
            check(&|k| (k == i).then(|| c.to_string()))?;
            if much {
                check(&|k| (k == i).then(|| format!("{}{c}", p.gaps[i])))?;
            }
        }
    }
    // trailing commas
    if p.tail.is_none() {
        for i in 0..=p.toks.len() {
            let closes = i == p.toks.len() || p.toks[i].0 == T::Close;
            let after = i > 0 && matches!(p.toks[i - 1].0, T::Key | T::Value | T::Close);
            if !closes || !after {
                continue;
            }
            for sp in ["", " "] {
                let mut t = String::new();
                let (whole, _) = join(&p, |_| None, &mut toks);
                let at = toks[i - 1].end;
                t.push_str(&whole[..at]);
                t.push_str(sp);
                t.push(',');
                t.push_str(&whole[at..]);
                for t in [format!("cfg({t})"), t] {
                    if looks_wrapped(&t) && !t.starts_with("cfg(") {
                        continue;
                    }
                    let s = see(&t, &[], None);
                    st.traces += 1;
                    match (&s0, &s) {
                        (Seen::Accepted(..), _) => same(text, &s0, &t, &s)?,
                        (Seen::Rejected(..), Seen::Rejected(..)) => {}
                        _ => same(text, &s0, &t, &s)?,
                    }
                }
            }
        }
    }
    Ok(())
}

/// For long texts, a few respellings all over
fn p06_long(text: &str, p: &Pieces<'_>, st: &mut Stats) -> Res {
    let mut toks = Vec::new();
    let (_, tail) = join(p, |_| None, &mut toks);
    if toks.len() > 200_000 {
        return Ok(());
    }
    let s0 = see(text, &toks, tail);
    st.traces += 1;
    st.outcome("long");
    for w in ["", " ", "\u{2003}\n"] {
        let (t, tail) = join(p, |_| Some(w.to_owned()), &mut toks);
        let w = format!("cfg({t})");
        let s = see(&w, &toks, tail);
        st.traces += 1;
        same(text, &s0, &w, &s)?;
    }
    Ok(())
}

pub fn p06(text: &str, st: &mut Stats) -> Res {
    p06_with(text, st, true)
}

fn p06_less(text: &str, st: &mut Stats) -> Res {
    p06_with(text, st, false)
}

pub fn explore06(r: &mut Run) {
    let (m, n) = if r.thorough { (5, 6) } else { (4, 5) };
    texts::token_sequences(r, m, &|ctx, t| ctx.case(t, |st| p06(t, st)));
    texts::token_sequences(r, n, &|ctx, t| ctx.case(t, |st| p06_less(t, st)));
    let v = if r.thorough { 9 } else { 7 };
    texts::viable_prefixes(r, v, &|ctx, t| ctx.case(t, |st| p06_less(t, st)));
    let c = if r.thorough { 6 } else { 5 };
    texts::char_strings(r, c, c - 1, &|ctx, t| ctx.case(t, |st| p06_less(t, st)));
    let sel = texts::Sel { toks: (0, 3), chars: (0, 0), unicode: false, keys: false, values: 1, sweeps: false, big: false, wraps: true, dict: true, tails: 0, pairs: if r.thorough { 7 } else { 6 }, mixed: if r.thorough { 3 } else { 2 } };
    texts::explore(r, &sel, &|ctx, t| ctx.case(t, |st| p06_less(t, st)));
    texts::mixes(r, if r.thorough { 4 } else { 3 }, &|ctx, t| ctx.case(t, |st| p06_less(t, st)));
    texts::shaped(r, &|ctx, t| ctx.case(t, |st| p06_less(t, st)));
    // long runs of whitespace at each place
    let ls = texts::interesting_lengths(17);
    r.space("lengths of whitespace at each place", ls.len() as u64, |i, ctx| {
        let n = ls[i as usize];
        for ws in [" ", "\n", "\u{2003}"] {
            for t in ["all(a,b=\"v\",not(c),)", "a=\"v\"", "not(a,b)", "any(unix=\"x\",y)", "a b", "all(a"] {
                let c = format!("spaces {n} {ws:?} {t}");
                ctx.case(&c, |st| long_space(&c, st));
            }
        }
    });
}

/// A run of whitespace at each place of a text
fn long_space(c: &str, st: &mut Stats) -> Res {
    let mut it = c.splitn(4, ' ').skip(1);
    let n: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    // the whitespace itself may be a space, so take the case apart from the other end
    let (ws, t) = if c.contains("\"\\n\"") {
        ("\n", &c[c.find("\"\\n\"").unwrap() + 5..])
    } else if let Some(i) = c.find("\"\\u{2003}\"") {
        ("\u{2003}", &c[i + 11..])
    } else {
        (" ", &c[c.find("\" \"").unwrap_or(0) + 4..])
    };
    let p = pieces(t);
    let mut toks = Vec::new();
    let (_, tail) = join(&p, |_| None, &mut toks);
    let s0 = see(t, &toks, tail);
    let run = ws.repeat(n);
    for i in 0..p.gaps.len() {
        let (x, tail) = join(&p, |k| (k == i).then(|| run.clone()), &mut toks);
        let s = see(&x, &toks, tail);
        st.traces += 1;
        same(t, &s0, &x, &s)?;
        let w = format!("cfg({x})");
        let s = see(&w, &toks, tail);
        st.traces += 1;
        same(t, &s0, &w, &s)?;
    }
    st.outcome("long whitespace");
    Ok(())
}

pub fn one06(text: &str, st: &mut Stats) -> Res {
    if text.starts_with("spaces ") && text.contains('"') { long_space(text, st) } else { p06(text, st) }
}

// ---- P17 --------------------------------------------------------------------------------

/// case: a text, or two separated by a NUL NUL
pub fn p17(case: &str, st: &mut Stats) -> Res {
    if let Some((a, b)) = case.split_once("\0\0") {
        return p17_pair(a, b, st);
    }
    let text = case;
    let Ok(e) = Expression::parse(text) else { return Ok(()) };
    st.traces += 1;
    let s = model::strip(text);
    if e.original() != s {
        return Err(bad(format!("original {:?}", short(s)), format!("{:?}", short(e.original()))));
    }
    let preds = predicates(&e);
    let t = table(&e, &preds);
    let again = match Expression::parse(e.original()) {
        Ok(a) => a,
        Err(x) => return Err(bad("the original parses again", format!("{:?}", x.reason))),
    };
    let clone = e.clone();
    for (what, x) in [("re-parsed", &again), ("cloned", &clone)] {
        if x != &e || &e != x {
            return Err(bad(format!("equal when {what}"), "not equal"));
        }
        if x.original() != s {
            return Err(bad(format!("same text when {what}"), short(x.original())));
        }
        let p = predicates(x);
        let u = table(x, &p);
        if p != preds || u != t {
            return Err(bad(format!("same predicates and results when {what}"), short(&format!("{p:?}"))));
        }
    }
    // also when the one cloned from is gone
    drop(e);
    if predicates(&clone) != preds || clone.original() != s {
        return Err(bad("a clone stays the same when the original is dropped", short(&format!("{clone:?}"))));
    }
    if model::strip(text).len() != text.len() {
        st.outcome("wrapped");
    } else {
        st.outcome("not wrapped");
    }
    let _ = model::parse(s, Some(&mut st.cover));
    Ok(())
}

fn p17_pair(a: &str, b: &str, st: &mut Stats) -> Res {
    let (Ok(x), Ok(y)) = (Expression::parse(a), Expression::parse(b)) else { return Ok(()) };
    st.traces += 1;
    pair(a, &x, b, &y, st)
}

fn pair(a: &str, x: &Expression, b: &str, y: &Expression, st: &mut Stats) -> Res {
    let want = model::strip(a) == model::strip(b);
    if (x == y) != want || (y == x) != want || (x != y) == want {
        return Err(bad(
            format!("{:?} and {:?} are {}", short(a), short(b), if want { "equal" } else { "different" }),
            if want { "different" } else { "equal" },
        ));
    }
    st.outcome(if want { "equal pair" } else { "different pair" });
    Ok(())
}

fn each17(ctx: &mut Ctx<'_>, t: &str) {
    if model::parse(model::strip(t), None).is_ok() {
        ctx.case(t, |st| p17(t, st));
    }
}

pub fn explore17(r: &mut Run) {
    let sel = if r.thorough {
        texts::Sel { toks: (7, 11), chars: (7, 5), unicode: true, keys: true, values: 3, sweeps: true, big: true, wraps: true, dict: true, tails: 0, pairs: if r.thorough { 8 } else { 7 }, mixed: 3 }
    } else {
        texts::Sel { toks: (6, 10), chars: (6, 5), unicode: true, keys: true, values: 2, sweeps: true, big: true, wraps: true, dict: true, tails: 0, pairs: if r.thorough { 8 } else { 7 }, mixed: 3 }
    };
    texts::explore(r, &sel, &each17);
    // all pairs of a set of texts with many alike
    let mut ts: Vec<String> = Vec::new();
    for w in ["a", "b", "aa", "ab", "ba", "unix", "windows", "a=\"v\"", "a=\"w\"", "a=\"\"", "a= \"v\"", "a =\"v\"", "A", "feature=\"a\"",
        "target_family=\"unix\"", "target_os=\"a\"", "target_arch=\"a\"", "a=\" v\"", "a=\"\u{e9}\"", "a=\"e\u{301}\""]
    {
        for (p, q) in [
            ("", ""), (" ", ""), ("", " "), ("", ","), ("all(", ")"), ("any(", ")"), ("not(", ")"), ("all(", ",)"), ("all( ", ")"),
            ("all(b,", ")"), ("all(", ",b)"), ("any(b,", ")"), ("any(", ",b)"), ("not(not(", "))"), ("all(all(", "))"), ("all(any(", "))"),
            ("any(all(", "))"), ("\n", ""), ("", "\u{a0}"), ("all(b, ", ")"), ("all(b,", ", )"), ("all(all(),", ")"), ("all(any(),", ")"),
        ] {
            ts.push(format!("{p}{w}{q}"));
            ts.push(format!("cfg({p}{w}{q})"));
        }
    }
    ts.extend(["all()", "any()", "all( )", "any( )", "cfg(all())", "cfg( all())", "cfg(any() )"].map(str::to_owned));
    ts.sort();
    ts.dedup();
    let parse = |t: &str| guarded(|| Expression::parse(t).ok()).unwrap_or(None);
    // each thread has its own expressions: whether they can be shared is for P16
    thread_local! {
        static OK: RefCell<Vec<(String, Expression)>> = const { RefCell::new(Vec::new()) };
        static MANY: RefCell<Vec<Expression>> = const { RefCell::new(Vec::new()) };
    }
    r.space("all pairs of 900 texts", ts.len() as u64, |i, ctx| {
        OK.with_borrow_mut(|ok| {
            if ok.is_empty() {
                *ok = ts.iter().filter_map(|t| Some((t.clone(), parse(t)?))).collect();
            }
            let a = &ts[i as usize];
            let Some(x) = parse(a) else { return };
            for (b, y) in ok {
                if ctx.stop() {
                    return;
                }
                // cheap, so only written down when wrong
                ctx.st.traces += 1;
                if guarded(|| pair(a, &x, b, y, &mut Stats::default())).and_then(|r| r).is_err() {
                    ctx.case(&format!("{a}\0\0{b}"), |st| pair(a, &x, b, y, st));
                }
            }
        });
    });
    // so many of the same length that any two of the same 32 bit digest are among them
    let n: u64 = if cfg!(debug_assertions) { 1 << 14 } else if r.thorough { 1 << 18 } else { 1 << 17 };
    let spread = |i: u64| {
        let mut z = i.wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        format!("x{:016x}", z ^ (z >> 31))
    };
    r.space("all pairs of many texts", n / 64, |i, ctx| {
        MANY.with_borrow_mut(|many| {
            if many.is_empty() {
                *many = (0..n).filter_map(|i| parse(&spread(i))).collect();
            }
            for k in i * 64..(i + 1) * 64 {
                let (Some(x), false) = (many.get(k as usize), ctx.stop()) else { return };
                let rest = &many[k as usize + 1..];
                ctx.st.traces += rest.len() as u64;
                if let Some(l) = guarded(|| rest.iter().position(|y| x == y || y == x)).unwrap_or(Some(0)) {
                    let c = format!("{}\0\0{}", spread(k), spread(k + 1 + l as u64));
                    ctx.case(&c, |st| p17(&c, st));
                }
            }
        });
    });
    let few = crate::mix::few();
    r.space("all pairs of texts which differ in up to two features", few.len() as u64, |i, ctx| {
        for o in &few {
            let c = format!("{}\0\0{o}", few[i as usize]);
            ctx.case(&c, |st| p17(&c, st));
        }
    });
    // texts which differ in one character, at each place, and in length
    let ls: Vec<usize> = texts::interesting_lengths(13).into_iter().filter(|n| *n > 0).collect();
    r.space("pairs of long texts which differ at one place", ls.len() as u64, |i, ctx| {
        let n = ls[i as usize];
        let base = "x".repeat(n);
        for u in 0..if n <= 300 { UNLIKE.len() } else { 0 } {
            for k in 0..=n {
                for (p, q) in [("", ""), ("a=\"", "\""), ("any(b,c=\"", "\",)")] {
                    let c = format!("{p}{}{q}\0\0{p}{}{q}", unlike(n, u, n), unlike(n, u, k));
                    ctx.case(&c, |st| p17(&c, st));
                }
            }
        }
        let at: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, 7, 8, 15, 16, 31, 32, n / 2, n - 33, n - 32, n - 17, n - 16, n - 9, n - 8, n - 2, n - 1] };
        for k in at {
            let mut o = base.clone();
            o.replace_range(k..=k, "y");
            for (p, q) in [("", ""), ("a=\"", "\""), ("all(a,", ")"), ("feature=\"", "\"")] {
                let c = format!("{p}{base}{q}\0\0{p}{o}{q}");
                ctx.case(&c, |st| p17(&c, st));
            }
        }
        let c = format!("{base}\0\0{base}x");
        ctx.case(&c, |st| p17(&c, st));
        let c = format!("{base}\0\0cfg({base})");
        ctx.case(&c, |st| p17(&c, st));
    });
}

pub fn test17(case: &str) -> String {
    match case.split_once("\0\0") {
        Some((a, b)) => format!(
            "assert_eq!(cfg_expr::Expression::parse({a:?}).unwrap() == cfg_expr::Expression::parse({b:?}).unwrap(), {});",
            model::strip(a) == model::strip(b)
        ),
        None => format!(
            "let e = cfg_expr::Expression::parse({case:?}).unwrap();\n    assert_eq!(e.original(), {:?});\n    assert_eq!(cfg_expr::Expression::parse(e.original()).unwrap(), e);",
            model::strip(case)
        ),
    }
}
