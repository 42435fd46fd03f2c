//! The spaces of texts which the parser and lexer are explored with. All are enumerated
//! completely; bounds depend on the tier.

use crate::engine::{Ctx, Run};
use crate::{mine, mix};
use crate::p_target::{self, UNLIKE, unlike};

/// Spellings of tokens, words first
pub const TOKENS: [&str; 11] =
    ["a", "unix", "feature", "\"v\"", "=", "all", "any", "not", "(", ")", ","];
const WORDS: [bool; 11] =
    [true, true, true, false, false, true, true, true, false, false, false];

/// Appends a token, with a space only between words
pub fn push_tok(s: &mut String, tok: &str, word: bool) {
    if word && s.bytes().last().is_some_and(|c| c.is_ascii_alphanumeric() || c == b'_') {
        s.push(' ');
    }
    s.push_str(tok);
}

pub type Each<'f> = &'f (dyn Fn(&mut Ctx<'_>, &str) + Sync);

/// How a space of texts is given to an oracle
pub struct Sel {
    /// lengths of token sequences: all, and with a viable prefix
    pub toks: (u32, u32),
    pub chars: (u32, u32),
    pub unicode: bool,
    pub keys: bool,
    pub values: u32,
    pub sweeps: bool,
    pub big: bool,
    pub wraps: bool,
    /// words of the sources
    pub dict: bool,
    /// known keys with other ends
    pub tails: u32,
    /// combinations of predicates, in trees of up to so many parts
    pub pairs: u32,
    /// how many features in combination
    pub mixed: usize,
}

pub fn default_sel(thorough: bool) -> Sel {
    if thorough {
        Sel { toks: (8, 13), chars: (8, 6), unicode: true, keys: true, values: 4, sweeps: true, big: true, wraps: true, dict: true, tails: 0, pairs: 8, mixed: 4 }
    } else {
        Sel { toks: (7, 11), chars: (7, 5), unicode: true, keys: true, values: 3, sweeps: true, big: true, wraps: true, dict: true, tails: 0, pairs: 7, mixed: 3 }
    }
}

pub fn explore(r: &mut Run, sel: &Sel, each: Each<'_>) {
    token_sequences(r, sel.toks.0, each);
    viable_prefixes(r, sel.toks.1, each);
    char_strings(r, sel.chars.0, sel.chars.1, each);
    if sel.wraps {
        wraps(r, each);
        syntax(r, each);
    }
    if sel.unicode {
        unicode(r, each);
    }
    if sel.keys {
        keys(r, each);
    }
    if sel.values > 0 {
        values(r, sel.values, each);
    }
    if sel.values > 1 {
        numbers(r, each);
    }
    if sel.sweeps {
        lengths(r, each);
        widths(r, each);
        widths_at_depths(r, each);
    }
    if sel.dict {
        dict(r, each);
    }
    if sel.pairs > 0 {
        pairs(r, each);
        if sel.pairs > 6 {
            alike(r, each);
        }
        kinds_in_trees(r, sel.pairs, each);
    }
    if sel.mixed > 0 {
        mix::explore(r, sel.mixed, true, each);
    }
    if sel.tails > 0 {
        tails(r, sel.tails, each);
    }
    if sel.big {
        big(r, each);
    }
}

/// Words of the sources, as keys, as values of every key, within values, and anywhere
pub fn dict(r: &mut Run, each: Each<'_>) {
    let m = &*mine::LIB;
    r.notes.push(m.note());
    let all: Vec<&String> = m.words.iter().chain(&m.idents).collect();
    r.space("words of the sources", all.len() as u64, |i, ctx| {
        let w = all[i as usize];
        for (p, q) in CONTEXTS {
            each(ctx, &format!("{p}{w}{q}"));
            each(ctx, &format!("{p} {w}{q}"));
        }
        for (p, q) in [("x", ""), ("", "x"), ("-", ""), ("", "-"), (" ", ""), ("", " "), ("", "_"), ("", "1"), ("\u{e9}", ""), ("", "\u{e9}")] {
            each(ctx, &format!("k=\"{p}{w}{q}\""));
            each(ctx, &format!("feature=\"{p}{w}{q}\""));
            each(ctx, &format!("target_os=\"{p}{w}{q}\""));
        }
        for k in KEYS.iter().chain(&["k", "target_x"]) {
            for t in [
                format!("{k}=\"{w}\""),
                format!("{w}=\"{k}\""),
                format!("all({k}=\"{w}\",b,not(c))"),
                format!("cfg(any(a, {k} = \"{w}\"))"),
                format!("{k}_{w}=\"x\""),
                format!("{w}_{k}"),
                format!("any({w},{k}=\"x\")"),
                format!("all({k}=\"x\",{w}=\"y\")"),
                format!("all({k}=\"x\",k=\"{w}\")"),
                format!("all({k},{w})"),
                format!("not({k}{w})"),
            ] {
                each(ctx, &t);
            }
        }
        for v in VALUES {
            for t in [
                format!("{w}{v}"),
                format!("target_{w}{v}"),
                format!("target_has_{w}{v}"),
                format!("{}{v}", w.to_lowercase()),
                format!("target_{}{v}", w.to_lowercase()),
                format!("{}{v}", w.to_uppercase()),
                format!("{w}s{v}"),
            ] {
                each(ctx, &t);
                each(ctx, &format!("all(a,{t},any())"));
            }
        }
    });
    let n = m.words.len() as u64;
    r.space("pairs of words of the sources", n * n, |i, ctx| {
        let (a, b) = (&m.words[(i / n) as usize], &m.words[(i % n) as usize]);
        for t in [
            format!("{a}{b}"),
            format!("{a} {b}"),
            format!("{a}=\"{b}\""),
            format!("k=\"{a}{b}\""),
            format!("target_os=\"{a} {b}\""),
            format!("all({a},{b})"),
            format!("any({a}=\"v\",k=\"{b}\")"),
            format!("{a}({b})"),
            format!("{a}(x,{b},)"),
            format!("x{a}y{b}z"),
            format!("k=\"x\"{a}k{b}"),
            format!("all(k{a}b{b})"),
        ] {
            each(ctx, &t);
        }
    });
}

/// The values of options which rustc's targets have, and others
fn known_values() -> Vec<String> {
    let mut v = p_target::all_values();
    v.retain(|x| !x.contains('"'));
    v.extend(["true", "false", "yes", "no", "on", "off", "True", "v1", "any", "all", "not", "cfg", "std", "alloc", "default"].map(String::from));
    v
}

/// Two predicates which differ a little, at each place
fn alike(r: &mut Run, each: Each<'_>) {
    let max = if r.thorough { 60 } else { 26 };
    let mut forms: Vec<(String, String)> = KEYS.iter().chain(&["k"]).map(|k| (format!("{k}=\""), "\"".to_owned())).collect();
    forms.push((String::new(), String::new()));
    forms.push((String::new(), "=\"v\"".into()));
    forms.push(("target_".into(), "=\"v\"".into()));
    forms.push(("feature=\"v\",".into(), String::new()));
    r.space("two predicates which differ a little", (max * forms.len()) as u64, |i, ctx| {
        let (n, (p, q)) = (i as usize / forms.len() + 1, &forms[i as usize % forms.len()]);
        for u in 0..UNLIKE.len() {
            for place in 0..=n {
                let (a, b) = (format!("{p}{}{q}", unlike(n, u, n)), format!("{p}{}{q}", unlike(n, u, place)));
                each(ctx, &format!("all({a},{b})"));
                each(ctx, &format!("any({b}, not(all({a}, z)))"));
                each(ctx, &format!("any({b}, z, {a}, {b})"));
            }
        }
    });
}

/// All pairs and triples of predicates of all kinds, where one may change what another means
fn pairs(r: &mut Run, each: Each<'_>) {
    let mut p: Vec<String> = ["a", "b", "unix", "windows", "test", "debug_assertions", "proc_macro", "feature=\"a\"", "feature=\"b\"",
        "target_feature=\"a\"", "k=\"a\"", "k=\"b\"", "panic=\"abort\"", "panic=\"unwind\"", "target_abi=\"\"", "target_abi=\"eabi\"",
        "target_arch=\"x86_64\"", "target_arch=\"a\"", "target_endian=\"big\"", "target_endian=\"little\"", "target_env=\"\"",
        "target_env=\"gnu\"", "target_family=\"unix\"", "target_family=\"windows\"", "target_family=\"wasm\"",
        "target_has_atomic=\"ptr\"", "target_has_atomic=\"64\"", "target_os=\"linux\"", "target_os=\"windows\"", "target_os=\"none\"",
        "target_pointer_width=\"32\"", "target_pointer_width=\"64\"", "target_vendor=\"apple\"", "target_vendor=\"unknown\"", "all()", "any()"]
        .map(String::from).to_vec();
    p.extend(["target_os", "unix", "feature", "target_endian"].map(|k| format!("{k}=\"\u{e9}\"")));
    let n = p.len() as u64;
    r.space("pairs and triples of predicates of all kinds", n * n, |i, ctx| {
        let (a, b) = (&p[(i / n) as usize], &p[(i % n) as usize]);
        for t in [
            format!("all({a},{b})"),
            format!("any({a},{b})"),
            format!("all({a},not({b}))"),
            format!("any({a},not({b}))"),
            format!("all(not({a}),{b})"),
            format!("any(not({a}),{b})"),
            format!("not(all({a},{b}))"),
            format!("not(any({a},{b}))"),
            format!("any(all({a},x),all({b},x))"),
            format!("all(any({a},x),any({b},y))"),
            format!("all({a},any({b},not({a})))"),
            format!("any({a},all({b},not({a})))"),
            format!("any(all({a},{b}),all({a},not({b})))"),
            format!("any(all({a},{b}),all(not({a}),not({b})))"),
            format!("{a},{b}"),
            format!("{a} {b}"),
        ] {
            each(ctx, &t);
        }
        for c in &p {
            each(ctx, &format!("all({a},{b},{c})"));
            each(ctx, &format!("any({a},all({b},not({c})))"));
        }
    });
    let v = known_values();
    let n = KEYS.len() as u64;
    r.space("values of rustc's targets for each key", v.len() as u64 * n, |i, ctx| {
        let (k, v) = (KEYS[(i % n) as usize], &v[(i / n) as usize]);
        each(ctx, &format!("{k}=\"{v}\""));
        each(ctx, &format!("{v}=\"{k}\""));
        each(ctx, &format!("{v}"));
        each(ctx, &format!("cfg(all({k} = \"{v}\", not(windows)))"));
        each(ctx, &format!("any({k}=\"{v}\",{k}=\"x\")"));
    });
}

/// All trees of predicates of all kinds (some of them misused), as sequences of predicates, open
/// functions, commas and ends, each also with one more of these at its end
fn kinds_in_trees(r: &mut Run, max: u32, each: Each<'_>) {
    const P: [&str; 20] = [
        "a", "unix", "windows", "test", "debug_assertions", "proc_macro", "feature=\"f\"", "target_feature=\"s\"", "k=\"v\"", "k=\"\"", "panic=\"abort\"",
        "target_os=\"linux\"", "target_family=\"unix\"", "target_endian=\"big\"", "target_pointer_width=\"64\"", "target_has_atomic=\"ptr\"",
        // misused
        "unix=\"x\"", "target_os", "target_has_atomic=\"x\"", "target_x=\"y\"",
    ];
    const F: [&str; 3] = ["all(", "any(", "not("];
    /// `after`: an operand is complete
    fn go(ctx: &mut Ctx<'_>, s: &mut String, after: bool, depth: u32, left: u32, each: Each<'_>) {
        let n = s.len();
        for (k, t) in P.iter().chain(&F).chain(&[",", ")"]).enumerate() {
            if ctx.stop() {
                return;
            }
            let operand = k < P.len() + F.len();
            let viable = if operand { !after } else if *t == "," { after } else { depth > 0 };
            // what is not viable is tried once, not for each kind of predicate
            if !viable && k > 0 && k < P.len() {
                continue;
            }
            if operand && after {
                s.push(' ');
            }
            s.push_str(t);
            // without the end of open functions, and with it
            each(ctx, s);
            let m = s.len();
            for _ in 0..depth + u32::from(operand && k >= P.len()) - u32::from(*t == ")" && depth > 0) {
                s.push(')');
            }
            if s.len() > m {
                each(ctx, s);
                s.truncate(m);
            }
            if viable && left > 1 {
                let depth = match k {
                    _ if k < P.len() => depth,
                    _ if operand => depth + 1,
                    _ if *t == ")" => depth - 1,
                    _ => depth,
                };
                go(ctx, s, (operand && k < P.len()) || *t == ")", depth, left - 1, each);
            }
            s.truncate(n);
        }
    }
    // work items: the first two
    let mut first: Vec<(String, bool, u32)> = Vec::new();
    for a in P {
        first.push((a.to_owned(), true, 0));
    }
    for f in F {
        for a in P {
            first.push((format!("{f}{a}"), true, 1));
            for g in F {
                first.push((format!("{f}{g}{a}"), true, 2));
            }
        }
        first.push((format!("{f})"), true, 0));
    }
    let len = |s: &str| s.matches('(').count() as u32 + 1;
    r.space(&format!("all trees of predicates of 20 kinds of up to {max} parts"), first.len() as u64, |i, ctx| {
        let (s, after, depth) = &first[i as usize];
        each(ctx, s);
        go(ctx, &mut s.clone(), *after, *depth, max - len(s), each);
    });
}

/// Lists of each width at each depth, and next to each other
fn widths_at_depths(r: &mut Run, each: Each<'_>) {
    let n = if r.thorough { 140 } else { 70 };
    r.space("lists of each width at each depth", n * n, |i, ctx| {
        let (d, w) = ((i / n) as usize, (i % n) as usize);
        let list = "a,".repeat(w);
        let plain = list.trim_end_matches(',');
        for (open, close) in [("not(", ")"), ("all(b,", ")"), ("any(not(c),", ",d)")] {
            let (p, q) = (open.repeat(d), close.repeat(d));
            for t in [
                format!("{p}all({plain}){q}"),
                format!("{p}any({list}){q}"),
                format!("{p}not({plain}){q}"),
                format!("{p}all({plain},unix=\"x\"){q}"),
                format!("{p}any({plain},){q})"),
                format!("{p}any({list}not(e),k=\"v\"){q},f"),
            ] {
                each(ctx, &t);
            }
        }
        // d and w as the widths of siblings
        let other = "b,".repeat(d);
        for t in [
            format!("all(any({other}),all({plain}))"),
            format!("all({other}any({list}),not(c))"),
            format!("any(not(c),{}{list})", "all(),".repeat(d)),
            format!("any({list}{})", "not(x),".repeat(d)),
            format!("all({other}not({list}))"),
            format!("all({other}{list},)"),
            format!("not(any({other}),any({list}))"),
        ] {
            each(ctx, &t);
        }
    });
}

/// Every known key, cut anywhere, with any short ending
fn tails(r: &mut Run, max: u32, each: Each<'_>) {
    let mut ps: Vec<&str> = Vec::new();
    for k in KEYS {
        for i in 0..=k.len() {
            ps.push(&k[..i]);
        }
    }
    ps.sort();
    ps.dedup();
    const L: &[u8; 27] = b"abcdefghijklmnopqrstuvwxyz_";
    for n in 1..=max {
        let m = 27u64.pow(n);
        r.space(&format!("known keys with any {n} letters as their end"), m * ps.len() as u64, |i, ctx| {
            let mut s = String::with_capacity(40);
            s.push_str(ps[(i / m) as usize]);
            let mut k = i % m;
            for _ in 0..n {
                s.push(L[(k % 27) as usize] as char);
                k /= 27;
            }
            each(ctx, &s);
            s.push_str("=\"x\"");
            each(ctx, &s);
        });
    }
}

fn pow(b: u64, e: u32) -> u64 {
    b.pow(e)
}

/// All sequences of up to `max` tokens
pub fn token_sequences(r: &mut Run, max: u32, each: Each<'_>) {
    for len in 0..=max {
        r.space(&format!("all sequences of {len} tokens"), pow(11, len), |i, ctx| {
            let mut s = String::with_capacity(32);
            let mut d = [0usize; 16];
            let mut n = i;
            for k in (0..len as usize).rev() {
                d[k] = (n % 11) as usize;
                n /= 11;
            }
            for k in 0..len as usize {
                push_tok(&mut s, TOKENS[d[k]], WORDS[d[k]]);
            }
            each(ctx, &s);
        });
    }
}

/// The acceptor which says whether a further token can still lead to an accepted text; only the
/// last token of the sequences in this space may be one which does not. Functions all and any
/// behave alike, so only one of them is used; and one kind of identifier.
pub fn viable_prefixes(r: &mut Run, max: u32, each: Each<'_>) {
    const A: [&str; 8] = ["a", "\"v\"", "=", "all", "not", "(", ")", ","];
    const W: [bool; 8] = [true, false, false, true, true, false, false, false];
    #[derive(Clone, Copy, PartialEq)]
    enum L {
        Start,
        Key,
        Value,
        Eq,
        Fn,
        Open,
        Close,
        Comma,
    }
    fn step(l: L, depth: u32, t: usize) -> Option<(L, u32)> {
        use L::*;
        let operand = matches!(l, Start | Open | Comma);
        match t {
            0 if operand => Some((Key, depth)),
            1 if l == Eq => Some((Value, depth)),
            2 if l == Key => Some((Eq, depth)),
            3 | 4 if operand => Some((Fn, depth)),
            5 if l == Fn => Some((Open, depth + 1)),
            6 if depth > 0 && matches!(l, Key | Value | Open | Close | Comma) => Some((Close, depth - 1)),
            7 if matches!(l, Key | Value | Close) => Some((Comma, depth)),
            _ => None,
        }
    }
    fn go(ctx: &mut Ctx<'_>, s: &mut String, l: L, depth: u32, left: u32, each: Each<'_>) {
        for t in 0..8 {
            if ctx.stop() {
                return;
            }
            let n = s.len();
            push_tok(s, A[t], W[t]);
            each(ctx, s);
            if left > 1 {
                if let Some((l, d)) = step(l, depth, t) {
                    go(ctx, s, l, d, left - 1, each);
                }
            }
            s.truncate(n);
        }
    }
    // work items are the viable prefixes of 5 tokens
    let mut prefixes: Vec<(String, L, u32)> = vec![(String::new(), L::Start, 0)];
    for _ in 0..5.min(max - 1) {
        let mut next = Vec::new();
        for (s, l, d) in &prefixes {
            for t in 0..8 {
                if let Some((l, d)) = step(*l, *d, t) {
                    let mut s = s.clone();
                    push_tok(&mut s, A[t], W[t]);
                    next.push((s, l, d));
                }
            }
        }
        prefixes = next;
    }
    let left = max - 5.min(max - 1);
    r.space(
        &format!("all viable sequences of up to {} tokens, and each with one more", max - 1),
        prefixes.len() as u64,
        |i, ctx| {
            let (s, l, d) = &prefixes[i as usize];
            go(ctx, &mut s.clone(), *l, *d, left, each);
        },
    );
}

fn strings(r: &mut Run, name: &str, alphabet: &[&str], max: u32, each: Each<'_>) {
    let b = alphabet.len() as u64;
    for len in 0..=max {
        r.space(&format!("{name}, length {len}"), pow(b, len), |i, ctx| {
            let mut s = String::with_capacity(24);
            let mut d = [0usize; 16];
            let mut n = i;
            for k in (0..len as usize).rev() {
                d[k] = (n % b) as usize;
                n /= b;
            }
            for k in 0..len as usize {
                s.push_str(alphabet[d[k]]);
            }
            each(ctx, &s);
        });
    }
}

pub fn char_strings(r: &mut Run, structural: u32, lexical: u32, each: Each<'_>) {
    strings(r, "strings over structural characters", &["a", "=", "\"", "(", ")", ",", " ", "\u{e9}"], structural, each);
    strings(
        r,
        "strings over kinds of characters",
        &[
            "a", "_", "1", "A", "=", "\"", ",", " ", "\n", "-", "'", "\\", "\u{e9}", "\u{20ac}",
            "\u{1f980}", "\u{a0}", "\u{2003}", "\u{661}", "\0",
        ],
        lexical,
        each,
    );
    strings(r, "strings over parts of words", &["a", "l", "n", "y", "o", "t", "("], lexical, each);
}

/// Wrappers and what looks like one
fn wraps(r: &mut Run, each: Each<'_>) {
    const PRE: [&str; 18] = [
        "", "cfg", "cfg(", "cfg (", " cfg(", "cfg( ", "cfg(cfg(", "CFG(", "cfg((", "xcfg(", "cfg)",
        "#[cfg(", "cfg_attr(", "cfg=", "\u{e9}cfg(", "cfg(,", "cfgcfg(", "\u{a0}cfg(",
    ];
    const BODY: [&str; 22] = [
        "", "a", "a,", "a, b", "a=\"v\"", "a=\"", "all()", "all(a)", "not(a", "all(a,b))", ")", "(",
        "\u{e9}", "a=\"\u{e9}\"", " ", "\u{2003}a\u{2003}", "cfg(a)", "unix", "a=\")\"", "a=\"cfg(b)\"", "cfg", "cfg=\"x\"",
    ];
    const POST: [&str; 14] =
        ["", ")", "))", " )", ") ", ")\n", "\u{2003})", ")\u{2003}", ",)", "),", ")a", "\u{e9})", ")\u{e9}", "]"];
    let n = (PRE.len() * BODY.len() * POST.len()) as u64;
    r.space("wrappers", n, |i, ctx| {
        let i = i as usize;
        let s = format!(
            "{}{}{}",
            PRE[i % PRE.len()],
            BODY[i / PRE.len() % BODY.len()],
            POST[i / PRE.len() / BODY.len()]
        );
        each(ctx, &s);
    });
}

/// What Rust or other languages write in such places
const SYNTAX: [&str; 76] = [
    "", "a", "k = \"v\"", "\"v\"", "r\"v\"", "r#\"v\"#", "b\"v\"", "c\"v\"", "br\"v\"", "\"v\\\"", "\"v\\\"w\"", "\"v\\\\\"", "\"\\u{41}\"", "\"\\x41\"", "\"\\n\"", "\"\"\"v\"\"\"",
    "\"\"", "'v'", "'v", "`v`", "/* c */", "/* \" */", "// c", "// c\n", "#", "#!", "#[a]", "!", "!a", "&&", "||", "&", "|", "^", "==", "!=", "=", "=>", "<", ">=", "::", ":", ";", "->",
    "true", "false", "version(\"1.0\")", "version", "accessible(a::b)", "target(os = \"linux\")", "target", "r#all", "r#a", "self", "crate", "1", "0x1", "1.0", "-1", "{", "}", "[", "]",
    "in", "and", "or", "none", "xor", "if", "ALL", "Not", "not", "$a", "a-b", "a.b", "*",
];
const SYNTAX_IN: [&str; 18] = [
    "#", "all(#)", "all(#, b)", "any(a, #)", "not(#)", "k = #", "feature = #", "target_os = #", "target_pointer_width = #", "cfg(#)", "a #", "# a", "# = \"v\"", "#(a)", "#(a, b)", "(#)", "all(#", "all(not(#), k = \"v\")",
];

fn syntax(r: &mut Run, each: Each<'_>) {
    let n = SYNTAX.len();
    r.space("syntax of Rust and others", (n * n) as u64, |i, ctx| {
        let (a, b) = (SYNTAX[i as usize / n], SYNTAX[i as usize % n]);
        for x in [format!("{a}{b}"), format!("{a} {b}"), format!("{a}, {b}"), format!("{a}({b})")] {
            for place in SYNTAX_IN {
                each(ctx, &place.replacen('#', &x, 1));
            }
        }
    });
}

/// Every Unicode character in each of these places
pub const CONTEXTS: [(&str, &str); 22] = [
    ("", ""),
    ("a", ""),
    ("", "a"),
    ("a", "b"),
    ("a ", ""),
    ("a=\"", "\""),
    ("a=\"x", "y\""),
    ("a=", "\"v\""),
    ("a", "=\"v\""),
    ("all(a", ",b)"),
    ("all(a,", "b)"),
    ("all", "(a)"),
    ("not(", ""),
    ("cfg(", ")"),
    ("cfg(a", ")"),
    ("", "cfg(a)"),
    ("cfg(a)", ""),
    ("feature=\"", ""),
    ("a=\"\u{e9}\",", ",b"),
    ("target_feature=\"", "\""),
    ("target_has_atomic=\"", "\""),
    ("target_pointer_width=\"1", "\""),
];

pub fn unicode(r: &mut Run, each: Each<'_>) {
    let n = 0x110000 / 64;
    r.space("every character in 22 places", n * CONTEXTS.len() as u64, |i, ctx| {
        let (p, q) = CONTEXTS[(i / n) as usize];
        let mut s = String::with_capacity(64);
        for c in (i % n) * 64..(i % n + 1) * 64 {
            if let Some(c) = char::from_u32(c as u32) {
                s.clear();
                s.push_str(p);
                s.push(c);
                s.push_str(q);
                each(ctx, &s);
            }
        }
    });
}

pub const KEYS: [&str; 44] = [
    "unix", "windows", "test", "debug_assertions", "proc_macro", "feature", "panic", "target_abi",
    "target_arch", "target_endian", "target_env", "target_family", "target_feature",
    "target_has_atomic", "target_os", "target_pointer_width", "target_vendor", "target_", "target",
    "cfg", "all", "any", "not", "true", "false", "target_thread_local", "target_has_atomic_load_store",
    "target_families", "target_architecture", "target_width", "target_atomic", "target_cpu", "target_object_format",
    "target_has_atomic_primitive_alignment", "target_triple", "debug", "overflow_checks", "ub_checks", "relocation_model",
    "sanitize", "doc", "doctest", "miri", "version",
];

const VALUES: [&str; 21] = [
    "", "=\"\"", "=\"a\"", "=\"big\"", "=\"little\"", "=\"ptr\"", "=\"8\"", "=\"64\"", "=\"256\"",
    "=\"65536\"", "=\"08\"", "=\"unix\"", "=\" \"", "=", "=a", "(a)", "=\"Big\"", "=\"\u{e9}\"",
    " = \"x\"", "=\"x\"=\"y\"", "=\"",
];

/// Each known key and everything within one edit of it, with each kind of value, at each kind of
/// place
fn keys(r: &mut Run, each: Each<'_>) {
    const EDIT: [char; 19] =
        ['a', 'b', 'n', 's', 't', 'x', 'y', 'z', '_', '0', '9', 'A', 'T', 'U', 'e', 'r', '-', ' ', '\u{e9}'];
    let mut ks: Vec<String> = Vec::new();
    for k in KEYS {
        ks.push(k.to_owned());
        ks.push(k.to_uppercase());
        ks.push(format!("{}{}", &k[..1].to_uppercase(), &k[1..]));
        ks.push(k.repeat(2));
        for i in 0..=k.len() {
            if i < k.len() {
                ks.push(format!("{}{}", &k[..i], &k[i + 1..]));
                ks.push(k[..i].to_owned());
                ks.push(k[i..].to_owned());
            }
            for c in EDIT {
                ks.push(format!("{}{c}{}", &k[..i], &k[i..]));
                if i < k.len() {
                    ks.push(format!("{}{c}{}", &k[..i], &k[i + 1..]));
                }
            }
        }
        for j in KEYS {
            ks.push(format!("{k}_{j}"));
        }
    }
    ks.sort();
    ks.dedup();
    const PLACES: [(&str, &str); 9] = [
        ("", ""),
        ("all(", ")"),
        ("any(a,", ")"),
        ("all(", ",b)"),
        ("not(", ")"),
        ("a,", ""),
        ("", ","),
        ("not(a,", ")"),
        ("all(not(b),", ",c=\"d\","),
    ];
    let n = ks.len() as u64;
    r.space("known keys and their neighbours", n, |i, ctx| {
        for v in VALUES {
            for (p, q) in PLACES {
                each(ctx, &format!("{p}{}{v}{q}", ks[i as usize]));
            }
        }
    });
}

/// Every short value for every key
fn values(r: &mut Run, max: u32, each: Each<'_>) {
    const A: [&str; 17] = [
        "a", "1", "0", "+", "-", " ", "(", ")", ",", "=", "\\", "\u{e9}", "\n", "'", "_", ".", "\u{1f980}",
    ];
    let b = A.len() as u64;
    for len in 0..=max {
        r.space(&format!("values of {len} characters for each key"), pow(b, len), |i, ctx| {
            let mut v = String::new();
            let mut n = i;
            for _ in 0..len {
                v.push_str(A[(n % b) as usize]);
                n /= b;
            }
            for k in ["k", "unix", "windows", "test", "debug_assertions", "proc_macro", "feature", "panic", "target_abi", "target_arch", "target_endian", "target_env",
                "target_family", "target_feature", "target_has_atomic", "target_os", "target_pointer_width",
                "target_vendor", "target_x"]
            {
                each(ctx, &format!("{k}=\"{v}\""));
                if len < 3 {
                    each(ctx, &format!("cfg(any(\u{e9}x=\"y\",{k}=\"{v}\"))"));
                    each(ctx, &format!("any(x=\"\u{e9}\",{k} = \"{v}\",not(b))"));
                }
            }
        });
    }
    const WORDS: [&str; 44] = [
        "big", "little", "Big", "LITTLE", "bigg", "litle", "middle", "ptr", "Ptr", "pt", "ptrs", "pointer", "8", "16",
        "32", "64", "128", "256", "65535", "65536", "4294967296", "18446744073709551616",
        "340282366920938463463374607431768211456", "1e1", "0x10", "1_0", "\u{661}\u{662}", "\u{ff11}", "8 ", " 8", "8bit",
        "unix", "none", "unknown", "true", "false", "yes", "no", "on", "off", "True", "None", "*", "abort",
    ];
    r.space("words and numbers as values for each key", (WORDS.len() * KEYS.len()) as u64, |i, ctx| {
        let k = KEYS[i as usize % KEYS.len()];
        let v = WORDS[i as usize / KEYS.len()];
        each(ctx, &format!("{k}=\"{v}\""));
        each(ctx, &format!("all({k}=\"{v}\")"));
        each(ctx, &format!("any(a, {k} = \"{v}\", b)"));
    });
}

/// All integers up to a bit above 16 bits, in all kinds of spelling
fn numbers(r: &mut Run, each: Each<'_>) {
    r.space("numbers as values", 66_000, |i, ctx| {
        for k in ["target_pointer_width", "target_has_atomic"] {
            for v in [
                format!("{i}"),
                format!("0{i}"),
                format!("+{i}"),
                format!("-{i}"),
                format!(" {i}"),
                format!("{i} "),
                format!("{i}.0"),
                format!("{i:x}"),
                format!("0x{i:x}"),
                format!("{}", i + 65_536),
                format!("{}", (1u64 << 32) + i),
                format!("{}", (1u128 << 64) + u128::from(i)),
                format!("{i:05}"),
                format!("{i:08}"),
            ] {
                each(ctx, &format!("{k}=\"{v}\""));
            }
        }
    });
}

/// Lengths which matter for counters and spans
pub fn interesting_lengths(max: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=300).collect();
    for p in 9..=max {
        for d in -2i64..=2 {
            v.push(((1i64 << p) + d) as usize);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// With the numbers of the sources, their neighbours and doubles
pub fn with_numbers(mut v: Vec<usize>, max: u64) -> Vec<usize> {
    v.extend(mine::LIB.counts(max));
    v.sort();
    v.dedup();
    v
}

/// Words, values and whitespace of every length up to 300 and around powers of two
fn lengths(r: &mut Run, each: Each<'_>) {
    let ls = with_numbers(interesting_lengths(17), 200_000);
    r.space("lengths of words, values and whitespace", ls.len() as u64, |i, ctx| {
        let n = ls[i as usize];
        for unit in ["x", "_", "\u{e9}", "\u{1f980}", "\u{2003}", " ", ")", "=", "a,", "\"", "1"] {
            let x = unit.repeat(n);
            for (p, q) in [
                ("", ""),
                ("a=\"", "\""),
                ("k", "=\"v\""),
                ("all(a=\"", "\",b=\"c\",not(unix=\"x\"))"),
                ("all(", "a,b"),
                ("a=\"", "\",,b"),
                ("not(a=\"", "\",b=\"w\")"),
                ("feature=\"", "\" x"),
                ("target_os=\"", ""),
                ("target_has_atomic=\"", "\""),
                ("target_endian=\"", "\""),
                ("target_", "=\"v\""),
                ("a", "$"),
                ("cfg(any(a,", "b))"),
                ("any(a=\"", "\",target_pointer_width=\"x\")"),
                ("all(any(),", "feature)"),
            ] {
                each(ctx, &format!("{p}{x}{q}"));
            }
        }
    });
}

/// Lists with every small mix of predicates and functions
pub fn mixes(r: &mut Run, max: u32, each: Each<'_>) {
    const ITEM: [&str; 5] = ["a", "b=\"v\"", "any()", "not(c)", "all(d,e)"];
    for f in ["all", "any", "not"] {
        for len in 0..=max {
            r.space(&format!("{f} with {len} operands of 5 kinds"), pow(5, len), |i, ctx| {
                for (p, q) in [("", ""), ("", ","), ("not(", ")"), ("all(x,", ",y)")] {
                    for tail in ["", ","] {
                        let mut s = format!("{p}{f}(");
                        let mut n = i;
                        for k in 0..len {
                            if k > 0 {
                                s.push(',');
                            }
                            s.push_str(ITEM[(n % 5) as usize]);
                            n /= 5;
                        }
                        s.push_str(tail);
                        s.push(')');
                        s.push_str(q);
                        each(ctx, &s);
                    }
                }
            });
        }
    }
}

/// One text of each length and depth, for oracles which take a while for each
pub fn shaped(r: &mut Run, each: Each<'_>) {
    let ws = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300];
    r.space("lists and nestings of up to 300", ws.len() as u64 * 10, |i, ctx| {
        let n = ws[i as usize / 10];
        let list = |x: &str| vec![x; n].join(",");
        let s = match i % 10 {
            0 => format!("all({})", list("a")),
            1 => format!("any({})", list("not(a)")),
            2 => format!("all({})", list("b=\"v\",any()")),
            3 => format!("not({})", list("a")),
            4 => format!("{}a{}", "not(".repeat(n), ")".repeat(n)),
            5 => format!("{}a{}", "all(b,".repeat(n), ",any())".repeat(n)),
            6 => format!("all({},unix=\"x\")", list("a")),
            7 => format!("any({}", list("a")),
            8 => format!("any({}),b", list("a=\"\u{e9}\"")),
            _ => list("all()"),
        };
        each(ctx, &s);
    });
}

/// Lists with every small mix of predicates and functions, and every width
fn widths(r: &mut Run, each: Each<'_>) {
    mixes(r, 5, each);
    let ws = with_numbers(interesting_lengths(13), 20_000);
    r.space("widths of lists", ws.len() as u64, |i, ctx| {
        let n = ws[i as usize];
        for f in ["all", "any", "not", ""] {
            for pat in [&["a"][..], &["any()"], &["a", "not(b)"], &["all(c)", "d=\"e\""], &["unix", "unix", "not(not(x))"]] {
                let mut s = String::new();
                if !f.is_empty() {
                    s.push_str(f);
                    s.push('(');
                }
                for k in 0..n {
                    if k > 0 {
                        s.push(',');
                    }
                    s.push_str(pat[k % pat.len()]);
                }
                let m = s.len();
                for tail in ["", ",", ",,", "=", " a", "(", ")", "$", ",windows=\"x\"", ",not(f,g)"] {
                    s.truncate(m);
                    s.push_str(tail);
                    if !f.is_empty() {
                        s.push(')');
                    }
                    each(ctx, &s);
                }
            }
        }
    });
}

/// Depth and width up to a million
fn big(r: &mut Run, each: Each<'_>) {
    let ds = with_numbers(interesting_lengths(12), 8_000);
    r.space("depths of nesting", ds.len() as u64, |i, ctx| {
        let n = ds[i as usize];
        for unit in ["not(", "all(", "any(a,", "all(not(", "any(b,all("] {
            let open = unit.matches('(').count();
            let s = unit.repeat(n);
            for inner in ["a", "", "unix=\"v\"", "a b", "$"] {
                for close in [open * n, (open * n).saturating_sub(1), open * n + 1] {
                    each(ctx, &format!("{s}{inner}{}", ")".repeat(close)));
                }
            }
            each(ctx, &format!("{s}a{}", ",x)".repeat(open * n)));
        }
    });
    let mut items: Vec<(usize, usize)> = Vec::new();
    for n in [65_534usize, 65_535, 65_536, 65_537, 131_073, 400_000, 1_000_000] {
        for k in 0..12 {
            items.push((n, k));
        }
    }
    r.space("widths and depths up to a million", items.len() as u64, |i, ctx| {
        let (n, k) = items[i as usize];
        let s = match k {
            0 => format!("{}a{}", "not(".repeat(n), ")".repeat(n)),
            1 => format!("{}{}", "all(".repeat(n), ")".repeat(n)),
            2 => format!("any({})", "a,".repeat(n)),
            3 => format!("all({})", "any(),".repeat(n)),
            4 => format!("not({})", "a,".repeat(n)),
            5 => "a,".repeat(n),
            6 => format!("{}x", "all(a,".repeat(n)),
            7 => "(".repeat(n),
            8 => ")".repeat(n),
            9 => format!("any({}unix=\"x\")", "a,not(b),".repeat(n)),
            10 => format!("{}b{}", "any(a,".repeat(n), ",c)".repeat(n)),
            _ => "all ".repeat(n),
        };
        each(ctx, &s);
    });
}
