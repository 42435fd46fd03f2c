//! Reference model of the cfg predicate language: a lexer, a push-down acceptor which also
//! builds the tree and knows the exact error, and the classification of predicates.
//! Written from the Rust reference and the documentation of cfg-expr's errors, with explicit
//! stacks only, and shares no code with the implementation.

use std::collections::HashSet;

/// Unicode White_Space, spelled out to be independent of the standard library
pub const WHITE_SPACE: [char; 25] = [
    '\u{9}', '\u{a}', '\u{b}', '\u{c}', '\u{d}', '\u{20}', '\u{85}', '\u{a0}', '\u{1680}',
    '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}', '\u{2006}',
    '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}',
    '\u{205f}', '\u{3000}',
];

fn is_ws(c: char) -> bool {
    if c < '\u{80}' {
        matches!(c, '\u{9}'..='\u{d}' | ' ')
    } else {
        WHITE_SPACE.contains(&c)
    }
}

/// The text inside of a `cfg( )` wrapper, if there is one
pub fn strip(text: &str) -> &str {
    let b = text.as_bytes();
    if b.len() >= 5 && &b[..4] == b"cfg(" && b[b.len() - 1] == b')' {
        &text[4..b.len() - 1]
    } else {
        text
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Key,
    Value,
    Eq,
    All,
    Any,
    Not,
    Open,
    Close,
    Comma,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub t: T,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LexErr {
    Quotes(usize),
    Char(usize, usize),
}

pub struct Lexer<'a> {
    s: &'a str,
    pos: usize,
    done: bool,
}

pub fn lexer(stripped: &str) -> Lexer<'_> {
    Lexer { s: stripped, pos: 0, done: false }
}

impl Iterator for Lexer<'_> {
    type Item = Result<Tok, LexErr>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        let b = self.s.as_bytes();
        let start = loop {
            if self.pos == b.len() {
                return None;
            }
            if b[self.pos] < 0x80 {
                if is_ws(b[self.pos] as char) {
                    self.pos += 1;
                    continue;
                }
                break self.pos;
            }
            let c = self.s[self.pos..].chars().next().unwrap();
            if is_ws(c) {
                self.pos += c.len_utf8();
                continue;
            }
            break self.pos;
        };
        let one = |t| Some(Ok(Tok { t, start, end: start + 1 }));
        let r = match b[start] {
            b'=' => one(T::Eq),
            b'(' => one(T::Open),
            b')' => one(T::Close),
            b',' => one(T::Comma),
            b'"' => {
                let mut e = start + 1;
                while e < b.len() && b[e] != b'"' {
                    e += 1;
                }
                if e == b.len() {
                    Some(Err(LexErr::Quotes(start)))
                } else {
                    Some(Ok(Tok { t: T::Value, start, end: e + 1 }))
                }
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                let mut e = start + 1;
                while e < b.len() && matches!(b[e], b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'0'..=b'9')
                {
                    e += 1;
                }
                let t = match &b[start..e] {
                    b"all" => T::All,
                    b"any" => T::Any,
                    b"not" => T::Not,
                    _ => T::Key,
                };
                Some(Ok(Tok { t, start, end: e }))
            }
            _ => {
                let c = self.s[start..].chars().next().unwrap();
                Some(Err(LexErr::Char(start, start + c.len_utf8())))
            }
        };
        match &r {
            Some(Ok(t)) => self.pos = t.end,
            _ => self.done = true,
        }
        r
    }
}

/// A predicate, with its payload
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum P {
    Abi(String),
    Arch(String),
    Endian(bool),
    Env(String),
    Family(String),
    /// None is the pointer
    HasAtomic(Option<u16>),
    Os(String),
    Panic(String),
    Width(u8),
    Vendor(String),
    Test,
    DebugAssertions,
    ProcMacro,
    Feature(String),
    TargetFeature(String),
    Flag(String),
    KeyValue(String, String),
}

pub fn from_impl(p: &cfg_expr::Predicate<'_>) -> P {
    use cfg_expr::Predicate as Q;
    use cfg_expr::TargetPredicate as TP;
    match p {
        Q::Target(t) => match t {
            TP::Abi(x) => P::Abi(x.as_str().into()),
            TP::Arch(x) => P::Arch(x.as_str().into()),
            TP::Endian(x) => P::Endian(matches!(x, cfg_expr::targets::Endian::big)),
            TP::Env(x) => P::Env(x.as_str().into()),
            TP::Family(x) => P::Family(x.as_str().into()),
            TP::HasAtomic(x) => P::HasAtomic(match x {
                cfg_expr::targets::HasAtomic::IntegerSize(n) => Some(*n),
                cfg_expr::targets::HasAtomic::Pointer => None,
                other => panic!("unknown atomic {other:?}"),
            }),
            TP::Os(x) => P::Os(x.as_str().into()),
            TP::Panic(x) => P::Panic(x.as_str().into()),
            TP::PointerWidth(x) => P::Width(*x),
            TP::Vendor(x) => P::Vendor(x.as_str().into()),
        },
        Q::Test => P::Test,
        Q::DebugAssertions => P::DebugAssertions,
        Q::ProcMacro => P::ProcMacro,
        Q::Feature(x) => P::Feature((*x).into()),
        Q::TargetFeature(x) => P::TargetFeature((*x).into()),
        Q::Flag(x) => P::Flag((*x).into()),
        Q::KeyValue { key, val } => P::KeyValue((*key).into(), (*val).into()),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum R {
    InvalidNot(usize),
    UnclosedParens,
    UnopenedParens,
    UnclosedQuotes,
    Empty,
    Unexpected(&'static [&'static str]),
    InvalidInteger,
    Multiple,
    InvalidHasAtomic,
    /// One which the implementation never has a reason for
    Other(String),
}

impl R {
    pub fn from_impl(r: &cfg_expr::error::Reason) -> R {
        use cfg_expr::error::Reason as Q;
        match r {
            Q::InvalidNot(n) => R::InvalidNot(*n),
            Q::UnclosedParens => R::UnclosedParens,
            Q::UnopenedParens => R::UnopenedParens,
            Q::UnclosedQuotes => R::UnclosedQuotes,
            Q::Empty => R::Empty,
            Q::Unexpected(l) => R::Unexpected(l),
            Q::InvalidInteger => R::InvalidInteger,
            Q::MultipleRootPredicates => R::Multiple,
            Q::InvalidHasAtomic => R::InvalidHasAtomic,
            other => R::Other(format!("{other:?}")),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct E {
    pub start: usize,
    pub end: usize,
    pub reason: R,
}

type Span = (usize, usize);

/// The canonical decimal form of an integer up to max
fn plain_int(v: &str, max: u32) -> Option<u32> {
    let b = v.as_bytes();
    if b.is_empty() || b.len() > 5 || (b.len() > 1 && b[0] == b'0') {
        return None;
    }
    let mut n = 0u32;
    for c in b {
        if !c.is_ascii_digit() {
            return None;
        }
        n = n * 10 + u32::from(c - b'0');
    }
    (n <= max).then_some(n)
}

pub fn classify(s: &str, key: Span, val: Option<Span>) -> Result<P, E> {
    let k = &s[key.0..key.1];
    let v = val.map(|(a, b)| &s[a..b]);
    let err = |span: Span, reason| Err(E { start: span.0, end: span.1, reason });
    let no_val = |p: P| match val {
        None => Ok(p),
        Some(sp) => err(sp, R::Unexpected(&[])),
    };
    match k {
        "unix" | "windows" => return no_val(P::Family(k.to_owned())),
        "test" => return no_val(P::Test),
        "debug_assertions" => return no_val(P::DebugAssertions),
        "proc_macro" => return no_val(P::ProcMacro),
        "feature" => {
            return match v {
                Some(v) => Ok(P::Feature(v.into())),
                None => err(key, R::Unexpected(&["= \"<feature_name>\""])),
            };
        }
        "panic" => {
            return match v {
                Some(v) => Ok(P::Panic(v.into())),
                None => err(key, R::Unexpected(&["= \"<panic_strategy>\""])),
            };
        }
        _ => {}
    }
    if k.len() >= 7 && &k[..7] == "target_" {
        let (Some(v), Some(vs)) = (v, val) else {
            return err(key, R::Unexpected(&["= \"<target_cfg_value>\""]));
        };
        let o = v.to_owned();
        return match &k[7..] {
            "abi" => Ok(P::Abi(o)),
            "arch" => Ok(P::Arch(o)),
            "endian" => match v {
                "big" => Ok(P::Endian(true)),
                "little" => Ok(P::Endian(false)),
                _ => err(vs, R::Unexpected(&["big", "little"])),
            },
            "env" => Ok(P::Env(o)),
            "family" => Ok(P::Family(o)),
            "feature" if v.is_empty() => err(vs, R::Unexpected(&["<feature>"])),
            "feature" => Ok(P::TargetFeature(o)),
            "has_atomic" => match (v, plain_int(v, 65535)) {
                ("ptr", _) => Ok(P::HasAtomic(None)),
                (_, Some(n)) => Ok(P::HasAtomic(Some(n as u16))),
                _ => err(vs, R::InvalidHasAtomic),
            },
            "os" => Ok(P::Os(o)),
            "pointer_width" => match plain_int(v, 255) {
                Some(n) => Ok(P::Width(n as u8)),
                None => err(vs, R::InvalidInteger),
            },
            "vendor" => Ok(P::Vendor(o)),
            _ => err(
                key,
                R::Unexpected(&[
                    "target_arch",
                    "target_feature",
                    "target_os",
                    "target_family",
                    "target_env",
                    "target_endian",
                    "target_has_atomic",
                    "target_pointer_width",
                    "target_vendor",
                ]),
            ),
        };
    }
    Ok(match v {
        None => P::Flag(k.into()),
        Some(v) => P::KeyValue(k.into(), v.into()),
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum F {
    All,
    Any,
    Not,
}

/// A node, children come before their parent
#[derive(Clone, Debug)]
pub enum N {
    /// index into preds
    Leaf(u32),
    Fn(F, Vec<u32>),
}

#[derive(Debug)]
pub struct Ast {
    pub nodes: Vec<N>,
    pub preds: Vec<P>,
}

struct Frame {
    f: F,
    span: Span,
    open: Option<usize>,
    items: Vec<u32>,
}

/// What the exploration covered of the model
#[derive(Default)]
pub struct Cover {
    pub states: HashSet<u64>,
    pub transitions: u64,
}

/// Parses a text without its wrapper
pub fn parse(s: &str, cover: Option<&mut Cover>) -> Result<Ast, E> {
    parse_with(s, cover, true)
}

/// Whether the text is in the grammar, whatever its predicates mean
pub fn in_grammar(s: &str) -> bool {
    parse_with(s, None, false).is_ok()
}

fn parse_with(s: &str, cover: Option<&mut Cover>, strict: bool) -> Result<Ast, E> {
    let mut nodes: Vec<N> = Vec::new();
    let mut preds: Vec<P> = Vec::new();
    let mut stack: Vec<Frame> = Vec::new();
    let mut root: Vec<u32> = Vec::new();
    let mut key: Option<Span> = None;
    let mut val: Option<Span> = None;
    let mut last: Option<T> = None;
    let mut cover = cover;
    let len = s.len();

    fn leaf(
        s: &str,
        strict: bool,
        key: Span,
        val: Option<Span>,
        nodes: &mut Vec<N>,
        preds: &mut Vec<P>,
    ) -> Result<u32, E> {
        let p = match classify(s, key, val) {
            Err(_) if !strict => P::Test,
            r => r?,
        };
        preds.push(p);
        nodes.push(N::Leaf(preds.len() as u32 - 1));
        Ok(nodes.len() as u32 - 1)
    }

    for t in lexer(s) {
        let t = match t {
            Ok(t) => t,
            Err(LexErr::Quotes(o)) => {
                return Err(E { start: o, end: len, reason: R::UnclosedQuotes });
            }
            Err(LexErr::Char(a, b)) => {
                return Err(E {
                    start: a,
                    end: b,
                    reason: R::Unexpected(&["<key>", "all", "any", "not"]),
                });
            }
        };
        if let Some(c) = cover.as_deref_mut() {
            c.transitions += 1;
            // the configuration in which this token is met
            // up to counts of 4 and the 5 innermost functions
            let mut h = 0u64;
            let mut mix = |x: usize| h = (h ^ x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
            mix(last.map_or(0, |l| l as usize + 1));
            mix(t.t as usize);
            mix(stack.len().min(24));
            mix(root.len().min(4) * 4 + usize::from(key.is_some()) * 2 + usize::from(val.is_some()));
            for f in stack.iter().rev().take(5) {
                mix(f.f as usize * 16 + f.items.len().min(4) * 2 + usize::from(f.open.is_some()));
            }
            c.states.insert(h);
        }
        let unexpected = || -> E {
            let l: &'static [&'static str] = match last {
                None => &["<key>", "all", "any", "not"],
                Some(T::All | T::Any | T::Not) => &["("],
                Some(T::Close) => &[")", ","],
                Some(T::Comma) => &[")", "<key>"],
                Some(T::Eq) => &["\""],
                Some(T::Key) => &["=", ",", ")"],
                Some(T::Value) => &[",", ")"],
                Some(T::Open) => &["<key>", ")", "all", "any", "not"],
            };
            E { start: t.start, end: t.end, reason: R::Unexpected(l) }
        };
        let at_operand = matches!(last, None | Some(T::Open | T::Comma));
        let ok = match t.t {
            T::Key | T::All | T::Any | T::Not => at_operand,
            T::Open => matches!(last, Some(T::All | T::Any | T::Not)),
            T::Eq => last == Some(T::Key),
            T::Value => last == Some(T::Eq),
            T::Comma => matches!(last, Some(T::Key | T::Value | T::Close)),
            T::Close => {
                matches!(last, Some(T::Key | T::Value | T::Close | T::Open | T::Comma))
            }
        };
        if !ok {
            return Err(unexpected());
        }
        match t.t {
            T::Key => key = Some((t.start, t.end)),
            T::Value => val = Some((t.start + 1, t.end - 1)),
            T::Eq => {}
            T::All | T::Any | T::Not => stack.push(Frame {
                f: match t.t {
                    T::All => F::All,
                    T::Any => F::Any,
                    _ => F::Not,
                },
                span: (t.start, t.end),
                open: None,
                items: Vec::new(),
            }),
            T::Open => stack.last_mut().unwrap().open = Some(t.start),
            T::Comma => {
                if let Some(k) = key.take() {
                    let l = leaf(s, strict, k, val.take(), &mut nodes, &mut preds)?;
                    match stack.last_mut() {
                        Some(f) => f.items.push(l),
                        None => root.push(l),
                    }
                }
            }
            T::Close => {
                let Some(mut f) = stack.pop() else {
                    return Err(E { start: t.start, end: t.end, reason: R::UnopenedParens });
                };
                let n = f.items.len() + usize::from(key.is_some());
                if f.f == F::Not && n != 1 {
                    return Err(E { start: f.span.0, end: t.end, reason: R::InvalidNot(n) });
                }
                if let Some(k) = key.take() {
                    f.items.push(leaf(s, strict, k, val.take(), &mut nodes, &mut preds)?);
                }
                nodes.push(N::Fn(f.f, f.items));
                let id = nodes.len() as u32 - 1;
                match stack.last_mut() {
                    Some(p) => p.items.push(id),
                    None => root.push(id),
                }
            }
        }
        last = Some(t.t);
    }
    if last == Some(T::Eq) {
        return Err(E { start: len, end: len, reason: R::Unexpected(&["\"<value>\""]) });
    }
    if let Some(f) = stack.pop() {
        return Err(match f.open {
            Some(o) => E { start: o, end: len, reason: R::UnclosedParens },
            None => E { start: f.span.0, end: f.span.1, reason: R::Unexpected(&["("]) },
        });
    }
    if let Some(k) = key.take() {
        let l = leaf(s, strict, k, val.take(), &mut nodes, &mut preds)?;
        root.push(l);
    }
    match root.len() {
        0 => Err(E { start: 0, end: len, reason: R::Empty }),
        1 => Ok(Ast { nodes, preds }),
        _ => Err(E { start: 0, end: len, reason: R::Multiple }),
    }
}

impl Ast {
    /// Folds bottom up; the root is the last node
    pub fn fold<V: Clone>(&self, mut leaf: impl FnMut(u32) -> V, mut f: impl FnMut(F, Vec<V>) -> V) -> V {
        let mut vals: Vec<Option<V>> = Vec::with_capacity(self.nodes.len());
        for n in &self.nodes {
            let v = match n {
                N::Leaf(i) => leaf(*i),
                N::Fn(k, ch) => {
                    let args = ch.iter().map(|c| vals[*c as usize].take().unwrap()).collect();
                    f(*k, args)
                }
            };
            vals.push(Some(v));
        }
        vals.pop().unwrap().unwrap()
    }
}

/// How an error is printed: the text, then a marker under the span, then the reason
pub fn display_marker(s: &str, e: &E) -> String {
    let col = |a: usize, b: usize| s[a..b].chars().count();
    let mut m = String::with_capacity(s.len() + 16);
    m.push_str(s);
    m.push('\n');
    m.extend(std::iter::repeat_n(' ', col(0, e.start)));
    match e.reason {
        R::UnclosedParens | R::UnclosedQuotes => m.push('-'),
        R::UnopenedParens => m.push('^'),
        _ => m.extend(std::iter::repeat_n('^', col(e.start, e.end))),
    }
    m.push(' ');
    m
}
