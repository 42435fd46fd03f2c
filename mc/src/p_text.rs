//! P01 to P05: acceptance, predicates, errors, totality, tokens. One oracle each, run on all
//! spaces of texts.

use crate::engine::*;
use crate::model::{self, P, R, T};
use crate::texts;
use cfg_expr::expr::lexer::{Lexer, Token};
use cfg_expr::{Expression, ParseError};

fn show(r: &Result<Expression, ParseError>) -> String {
    match r {
        Ok(e) => format!("accepted, predicates {}", short(&format!("{:?}", e.predicates().collect::<Vec<_>>()))),
        Err(e) => format!("rejected: {:?} at {:?}", e.reason, e.span),
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() <= 400 {
        return s.to_owned();
    }
    let a: String = s.chars().take(180).collect();
    let n = s.chars().count();
    let b: String = s.chars().skip(n - 180).collect();
    format!("{a} ... {b}")
}

// ---- P01 --------------------------------------------------------------------------------

pub fn p01(text: &str, st: &mut Stats) -> Res {
    let m = model::parse(model::strip(text), Some(&mut st.cover));
    // the misuse of a known key is left to P02
    let expect = match &m {
        Ok(_) => true,
        Err(_) if model::in_grammar(model::strip(text)) => {
            st.outcome("in the grammar, but misuses a known key (left to P02)");
            return Ok(());
        }
        Err(_) => false,
    };
    let got = Expression::parse(text);
    st.traces += 1;
    st.outcome(if expect { "accepted" } else { "rejected" });
    if got.is_ok() != expect {
        return Err(bad(if expect { "accepted" } else { "rejected" }, show(&got)));
    }
    Ok(())
}

// ---- P02 --------------------------------------------------------------------------------

pub fn p02(text: &str, st: &mut Stats) -> Res {
    let s = model::strip(text);
    let m = model::parse(s, Some(&mut st.cover));
    if m.is_err() && !model::in_grammar(s) {
        return Ok(());
    }
    let got = Expression::parse(text);
    st.traces += 1;
    match (m, got) {
        (Err(_), Err(_)) => {
            st.outcome("misused key rejected");
            Ok(())
        }
        (Ok(m), Ok(g)) => {
            let mut want = m.preds;
            want.sort();
            let mut list: Vec<P> = g.predicates().map(|p| model::from_impl(&p)).collect();
            list.sort();
            if list != want {
                return Err(bad(
                    format!("predicates {}", short(&format!("{want:?}"))),
                    format!("Expression::predicates gives {}", short(&format!("{list:?}"))),
                ));
            }
            let mut seen: Vec<P> = Vec::new();
            g.eval(|p| {
                seen.push(model::from_impl(p));
                true
            });
            seen.sort();
            if seen != want {
                return Err(bad(
                    format!("predicates {}", short(&format!("{want:?}"))),
                    format!("Expression::eval passes {}", short(&format!("{seen:?}"))),
                ));
            }
            if want.len() <= 40 {
                ways("predicates", &|| g.predicates(), &|a, b| a == b, want.len() + 1)?;
            }
            st.outcome(match want.len() {
                0 => "accepted, no predicates",
                1 => "accepted, one predicate",
                _ => "accepted, several predicates",
            });
            Ok(())
        }
        (Ok(m), g) => Err(bad(format!("accepted, predicates {}", short(&format!("{:?}", m.preds))), show(&g))),
        (Err(e), g) => Err(bad(format!("rejected: {:?}", e.reason), show(&g))),
    }
}

/// Whichever way it is stepped, an iterator gives the same items, as many as it promises
fn ways<I: Iterator>(what: &str, make: &dyn Fn() -> I, same: &dyn Fn(&I::Item, &I::Item) -> bool, max: usize) -> Res {
    let fail = |how: &str| Err(bad("the same items as with next", format!("{what}, {how}")));
    let one_by_one = || {
        let mut it = make();
        let mut v = Vec::new();
        while v.len() <= max {
            let Some(x) = it.next() else { break };
            v.push(x);
        }
        v
    };
    let all = one_by_one();
    let n = all.len();
    let mut it = make();
    for k in 0..=n {
        let (lo, hi) = it.size_hint();
        if lo > n - k || hi.is_some_and(|hi| hi < n - k) {
            return fail(&format!("size_hint {lo}, {hi:?} with {} items left", n - k));
        }
        it.next();
    }
    if make().count() != n {
        return fail("count");
    }
    let eq = |a: &Option<I::Item>, b: Option<&I::Item>| match (a, b) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => true,
        _ => false,
    };
    let eqs = |a: &[I::Item], b: &mut dyn Iterator<Item = &I::Item>| {
        let b: Vec<&I::Item> = b.collect();
        a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b))
    };
    if n > 12 {
        return Ok(());
    }
    if !eqs(&make().collect::<Vec<_>>(), &mut all.iter()) || !eq(&make().last(), all.last()) {
        return fail("collect or last");
    }
    let folded = make().fold(Vec::new(), |mut v, x| {
        v.push(x);
        v
    });
    let mut each = Vec::new();
    make().for_each(|x| each.push(x));
    if !eqs(&folded, &mut all.iter()) || !eqs(&each, &mut all.iter()) {
        return fail("fold or for_each");
    }
    for k in 0..=n {
        let mut it = make();
        if !eq(&it.nth(k), all.get(k)) || !eq(&it.next(), all.get(k + 1)) {
            return fail(&format!("nth({k}) and next"));
        }
        let mut it = make();
        let seen: Vec<_> = it.by_ref().take(k).collect();
        if !eqs(&seen, &mut all.iter().take(k)) || !eqs(&it.collect::<Vec<_>>(), &mut all.iter().skip(k)) {
            return fail(&format!("take({k}) and the rest"));
        }
        if !eqs(&make().skip(k).step_by(2).collect::<Vec<_>>(), &mut all.iter().skip(k).step_by(2)) {
            return fail(&format!("skip({k}) and every other"));
        }
    }
    Ok(())
}

// ---- P03 --------------------------------------------------------------------------------

pub fn p03(text: &str, st: &mut Stats) -> Res {
    let s = model::strip(text);
    let Err(m) = model::parse(s, Some(&mut st.cover)) else { return Ok(()) };
    let Err(e) = Expression::parse(text) else {
        // only the errors of rejected texts are looked at here
        return Ok(());
    };
    st.traces += 1;
    st.outcome(match &m.reason {
        R::InvalidNot(0) => "InvalidNot(0)",
        R::InvalidNot(_) => "InvalidNot(2+)",
        R::UnclosedParens => "UnclosedParens",
        R::UnopenedParens => "UnopenedParens",
        R::UnclosedQuotes => "UnclosedQuotes",
        R::Empty => "Empty",
        R::Unexpected(l) => l.first().unwrap_or(&"Unexpected[]"),
        R::InvalidInteger => "InvalidInteger",
        R::Multiple => "MultipleRootPredicates",
        R::InvalidHasAtomic => "InvalidHasAtomic",
        R::Other(_) => "other",
    });
    check_error(s, &m, &e)
}

/// Compares an error with what is expected, and how it is printed
pub fn check_error(s: &str, m: &model::E, e: &ParseError) -> Res {
    let want = format!("{:?} at {}..{}", m.reason, m.start, m.end);
    if e.original != s {
        return Err(bad(format!("original {:?}", short(s)), format!("original {:?}", short(&e.original))));
    }
    let got = format!("{:?} at {}..{}", R::from_impl(&e.reason), e.span.start, e.span.end);
    if (e.span.start, e.span.end) != (m.start, m.end) || R::from_impl(&e.reason) != m.reason {
        return Err(bad(want, got));
    }
    let d = e.to_string();
    let marker = model::display_marker(s, m);
    let Some(reason) = d.strip_prefix(&marker) else {
        return Err(bad(format!("printed as {:?} and the reason", short(&marker)), format!("{:?}", short(&d))));
    };
    if reason.is_empty() || reason != e.reason.to_string() {
        return Err(bad(format!("{marker:?} followed by the reason {:?}", e.reason.to_string()), format!("{d:?}")));
    }
    match &m.reason {
        R::InvalidNot(n) => {
            if !reason.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string()) {
                return Err(bad(format!("a reason which has the number {n}"), reason.to_owned()));
            }
        }
        R::Unexpected(l) => {
            let mut rest = reason;
            for x in *l {
                match rest.find(x) {
                    Some(i) => rest = &rest[i + x.len()..],
                    None => return Err(bad(format!("a reason which lists {l:?}"), reason.to_owned())),
                }
            }
        }
        _ => {}
    }
    Ok(())
}

// ---- P04 --------------------------------------------------------------------------------

/// Does everything there is to do with a text, only looking at whether it ends
pub fn touch_all(text: &str) -> Result<bool, Bad> {
    let mut items = 0usize;
    let mut shown = String::new();
    for t in Lexer::new(text) {
        items += 1;
        if items > text.len() + 1 {
            return Err(bad("at most as many tokens as characters, and one error", "more items"));
        }
        use std::fmt::Write;
        shown.clear();
        match t {
            Ok(t) => write!(shown, "{} {:?}", t.token, t).unwrap(),
            Err(e) => write!(shown, "{e} {e:?}").unwrap(),
        }
    }
    match Expression::parse(text) {
        Ok(e) => {
            let n = e.predicates().count();
            let mut k = 0usize;
            e.eval(|_| {
                k += 1;
                k % 2 == 0
            });
            e.eval(|_| None::<bool>);
            let c = e.clone();
            if c != e {
                return Err(bad("a clone is equal", "not equal"));
            }
            std::hint::black_box((n, format!("{e:?}").len(), e.original().len()));
            Ok(true)
        }
        Err(e) => {
            std::hint::black_box((e.to_string().len(), format!("{e:?}").len()));
            Ok(false)
        }
    }
}

pub fn p04(text: &str, st: &mut Stats) -> Res {
    if let Some(f) = text.strip_prefix("scaling ") {
        return scaling(f, st);
    }
    // the model is run for coverage only
    if text.len() < 200 {
        let _ = model::parse(model::strip(text), Some(&mut st.cover));
    }
    st.traces += 1;
    let ok = touch_all(text)?;
    st.outcome(if ok { "accepted" } else { "rejected" });
    Ok(())
}

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
unsafe extern "C" {
    fn clock_gettime(c: i32, t: *mut Ts) -> i32;
}
fn thread_cpu() -> f64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

/// before, repeated, after; "#" is another number at each repetition
const FAMILIES: [(&str, &str, &str); 40] = [
    ("", "not(", ""),
    ("", "all(", ""),
    ("any(", "a,", ")"),
    ("all(", "any(),", ")"),
    ("any(", "a,not(b),", ")"),
    ("all(", "target_os=\"x\",", ")"),
    ("any(", "a=\"\u{e9}\",", "unix=\"v\")"),
    ("not(", "a,", ")"),
    ("not(", "any(),", ")"),
    ("", "a,", ""),
    ("", "any(),", ""),
    ("", "a", ""),
    ("", "\u{e9}", ""),
    ("", " ", ""),
    ("", "\u{2003}", "a"),
    ("", " ", "$"),
    ("a=\"", "x", "\""),
    ("a=\"", "\u{1f980}", ""),
    ("all(", "a,", "$)"),
    ("all(", "a,", ""),
    ("all(", "a ,\n", "b c)"),
    ("", "(", ""),
    ("", ")", ""),
    ("", "\"\"", ""),
    ("", "=", ""),
    ("cfg(any(", "feature=\"f\",", "))"),
    ("target_", "x", "=\"v\""),
    ("target_has_atomic=\"", "1", "\""),
    ("", "any(a,", ""),
    ("", "all(any(),not(", "a"),
    ("any(", "feature=\"#\",", ")"),
    ("any(", "k#=\"v\",", ")"),
    ("all(", "k#,", ")"),
    ("all(", "target_os=\"#\",", ")"),
    ("all(", "not(k#=\"#\"),", ")"),
    ("", "any(k#,", ""),
    ("all(", "target_has_atomic=\"#\",", ")"),
    ("all(", "k#,", "$)"),
    ("all(a=\"", "\u{1f980}", "\",b=\"c\",not(unix=\"x\"))"),
    ("a\u{e9}", "\u{2003}", "=\"v\" b"),
];

/// Time for eight times the text, in terms of that for the text; linear is about 8, quadratic 64
fn scaling(f: &str, st: &mut Stats) -> Res {
    let (i, close) = f.split_once(' ').ok_or_else(|| bad("", "bad case"))?;
    let (p, unit, q) = FAMILIES[i.parse::<usize>().map_err(|_| bad("", "bad case"))?];
    let close = close == "closed";
    let text = |n: usize| {
        let k = n / unit.len();
        let c = if close { ")".repeat(unit.matches('(').count() * k) } else { String::new() };
        let inner = if close { "a" } else { "" };
        let units = if unit.contains('#') { (0..k).map(|i| unit.replace('#', &i.to_string())).collect() } else { unit.repeat(k) };
        format!("{p}{units}{inner}{c}{q}")
    };
    st.traces += 2;
    let time = |n: usize| -> Result<f64, Bad> {
        let t = text(n);
        let mut best = f64::MAX;
        for _ in 0..3 {
            let a = thread_cpu();
            touch_all(&t)?;
            best = best.min(thread_cpu() - a);
        }
        Ok(best)
    };
    let mut worst = String::new();
    for _ in 0..4 {
        // small enough that even quadratic time ends, large enough to be measured
        let n = 1 << 14;
        let a = time(n)?;
        let b = time(8 * n)?;
        if b < 0.02 || b < 26.0 * a {
            let a = time(8 * n)?;
            let b = time(64 * n)?;
            if b < 0.02 || b < 26.0 * a {
                st.outcome("scales linearly");
                return Ok(());
            }
            worst = format!("{:.1} ms for {} bytes, {:.1} ms for {} bytes", a * 1e3, 8 * n, b * 1e3, 64 * n);
        } else {
            worst = format!("{:.1} ms for {} bytes, {:.1} ms for {} bytes", a * 1e3, n, b * 1e3, 8 * n);
        }
    }
    Err(bad("time about linear in the length of the text", format!("{worst}, text of the form {:?}", text(40))))
}

// ---- P05 --------------------------------------------------------------------------------

pub fn p05(text: &str, st: &mut Stats) -> Res {
    let s = model::strip(text);
    st.traces += 1;
    let mut want = model::lexer(s);
    let mut at = 0usize;
    let mut n = 0usize;
    let mut last: Option<T> = None;
    let mut got = Lexer::new(text);
    loop {
        let g = got.next();
        let w = want.next();
        n += 1;
        if n > text.len() + 2 {
            return Err(bad("a finite stream", "more items than characters"));
        }
        let describe = |g: &Option<Result<cfg_expr::expr::lexer::LexerToken<'_>, ParseError>>| match g {
            None => format!("item {n}: end"),
            Some(Ok(t)) => format!("item {n}: {:?} at {:?}", t.token, t.span),
            Some(Err(e)) => format!("item {n}: error {:?} at {:?}", e.reason, e.span),
        };
        match (&g, w) {
            (None, None) => break,
            (Some(Err(_)), Some(Err(_))) => {
                st.outcome("ends with an error");
                // the error is the last item, and the rest is not covered
                if got.next().is_some() {
                    return Err(bad("nothing after the error", describe(&g)));
                }
                return tokens_in_all_ways(text, n);
            }
            (Some(Ok(t)), Some(Ok(w))) => {
                let txt = &s[w.start..w.end];
                let ok = match (&t.token, w.t) {
                    (Token::Key(k), T::Key) => *k == txt,
                    (Token::Value(v), T::Value) => *v == &txt[1..txt.len() - 1],
                    (Token::Equals, T::Eq)
                    | (Token::All, T::All)
                    | (Token::Any, T::Any)
                    | (Token::Not, T::Not)
                    | (Token::OpenParen, T::Open)
                    | (Token::CloseParen, T::Close)
                    | (Token::Comma, T::Comma) => true,
                    _ => false,
                };
                if !ok || t.span != (w.start..w.end) {
                    return Err(bad(format!("item {n}: {:?} {:?} at {}..{}", w.t, short(txt), w.start, w.end), short(&describe(&g))));
                }
                // tiling, independent of the model
                if t.span.start < at || s.get(at..t.span.start).is_none_or(|x| !x.chars().all(char::is_whitespace)) {
                    return Err(bad("only whitespace between tokens", short(&describe(&g))));
                }
                at = t.span.end;
                st.cover.transitions += 1;
                let mut h = std::hash::DefaultHasher::new();
                use std::hash::{Hash, Hasher};
                (last, w.t, w.end - w.start > 3, s[w.end..].chars().next().map(char::len_utf8)).hash(&mut h);
                st.cover.states.insert(h.finish());
                last = Some(w.t);
            }
            (g, w) => {
                return Err(bad(
                    match w {
                        None => format!("item {n}: end"),
                        Some(Ok(w)) => format!("item {n}: {:?} at {}..{}", w.t, w.start, w.end),
                        Some(Err(e)) => format!("item {n}: error {e:?}"),
                    },
                    short(&describe(g)),
                ));
            }
        }
    }
    if !s[at..].chars().all(char::is_whitespace) {
        return Err(bad("only whitespace after the last token", short(&s[at..])));
    }
    st.outcome("tokenized to the end");
    tokens_in_all_ways(text, n)
}

fn tokens_in_all_ways(text: &str, n: usize) -> Res {
    if !text.is_ascii() || n > 5 && !(20..40).contains(&n) {
        return Ok(());
    }
    ways(
        "tokens",
        &|| Lexer::new(text),
        &|a, b| match (a, b) {
            (Ok(a), Ok(b)) => a.token == b.token && a.span == b.span,
            (Err(a), Err(b)) => a == b,
            _ => false,
        },
        n + 1,
    )
}

// ---- exploration ------------------------------------------------------------------------

fn all(r: &mut Run, tails: u32, f: fn(&str, &mut Stats) -> Res) {
    let mut sel = texts::default_sel(r.thorough);
    sel.tails = tails;
    texts::explore(r, &sel, &|ctx, t| ctx.case(t, |st| f(t, st)));
}

pub fn explore01(r: &mut Run) {
    all(r, 2, p01);
}
pub fn explore02(r: &mut Run) {
    all(r, 3, p02);
}
pub fn explore03(r: &mut Run) {
    all(r, 1, p03);
}
pub fn explore04(r: &mut Run) {
    let threads = std::mem::replace(&mut r.threads, 4);
    r.space(&format!("time to parse {} forms of text of 16 kB to 1 MB", FAMILIES.len()), 2 * FAMILIES.len() as u64, |i, ctx| {
        let c = format!("scaling {} {}", i / 2, if i % 2 == 0 { "open" } else { "closed" });
        ctx.case(&c, |st| p04(&c, st));
    });
    r.threads = threads;
    all(r, 0, p04);
}
pub fn explore05(r: &mut Run) {
    all(r, 2, p05);
}

// ---- unit tests of violations -----------------------------------------------------------

pub fn test01(text: &str) -> String {
    let ok = model::parse(model::strip(text), None).is_ok();
    format!("assert_eq!(cfg_expr::Expression::parse({text:?}).is_ok(), {ok});")
}
pub fn test02(text: &str) -> String {
    match model::parse(model::strip(text), None) {
        Err(_) => format!("assert!(cfg_expr::Expression::parse({text:?}).is_err());"),
        Ok(m) => format!(
            "let e = cfg_expr::Expression::parse({text:?}).unwrap();\n    // expected in any order: {:?}\n    assert_eq!(e.predicates().count(), {});\n    dbg!(e.predicates().collect::<Vec<_>>());",
            m.preds, m.preds.len()
        ),
    }
}
pub fn test03(text: &str) -> String {
    match model::parse(model::strip(text), None) {
        Ok(_) => test01(text),
        Err(e) => format!(
            "let e = cfg_expr::Expression::parse({text:?}).unwrap_err();\n    // expected reason: {:?}\n    assert_eq!(e.original, {:?});\n    assert_eq!(e.span, {}..{}, \"{{:?}}\", e.reason);\n    assert_eq!(e.to_string(), format!(\"{{}}{{}}\", {:?}, e.reason));",
            e.reason, model::strip(text), e.start, e.end, model::display_marker(model::strip(text), &e)
        ),
    }
}
pub fn test04(text: &str) -> String {
    format!("let t = {text:?};\n    for t in cfg_expr::expr::lexer::Lexer::new(t).take(t.len() + 2) {{ let _ = format!(\"{{t:?}}\"); }}\n    match cfg_expr::Expression::parse(t) {{\n        Ok(e) => {{ e.predicates().count(); e.eval(|_| true); }}\n        Err(e) => {{ e.to_string(); }}\n    }}")
}
pub fn test05(text: &str) -> String {
    let want: Vec<String> = model::lexer(model::strip(text))
        .map(|t| match t {
            Ok(t) => format!("Some({}..{})", t.start, t.end),
            Err(_) => "None".into(),
        })
        .collect();
    format!(
        "let got: Vec<_> = cfg_expr::expr::lexer::Lexer::new({text:?}).take(1000).map(|t| t.ok().map(|t| t.span)).collect();\n    let want: Vec<Option<std::ops::Range<usize>>> = vec![{}];\n    assert_eq!(got, want);",
        want.join(", ")
    )
}
