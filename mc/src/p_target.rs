//! P10, P11, P12 and P15: the builtin targets, matching of a predicate with a target
//! description, and the values these consist of.

use crate::engine::*;
use crate::mine;
use cfg_expr::expr::{TargetMatcher, TargetPredicate as TP};
use cfg_expr::targets::*;
use cfg_expr::{Expression, Predicate};
use std::cell::LazyCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::{LazyLock, Mutex};

/// A text which lives long enough for `new_const`
pub fn leak(s: &str) -> &'static str {
    static ALL: LazyLock<Mutex<HashSet<&'static str>>> = LazyLock::new(Default::default);
    let mut m = ALL.lock().unwrap();
    match m.get(s) {
        Some(x) => x,
        None => {
            let l: &'static str = Box::leak(s.to_owned().into_boxed_str());
            m.insert(l);
            l
        }
    }
}

// ---- the reference table ------------------------------------------------------------------

/// A target as plain text, with the meaning of each option
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Row {
    pub triple: String,
    pub os: Option<String>,
    pub abi: Option<String>,
    pub arch: String,
    pub env: Option<String>,
    pub vendor: Option<String>,
    pub families: Vec<String>,
    pub width: u32,
    pub endian: String,
    pub atomics: Vec<String>,
    pub panic: String,
}

impl Row {
    /// triple|os|abi|arch|env|vendor|{a, b}|width|endian|{8, ptr}|panic, where ~ is absent
    pub fn parse(l: &str) -> Row {
        let v: Vec<&str> = l.split('|').collect();
        assert!(v.len() >= 11, "row {l}");
        let o = |s: &str| (s != "~").then(|| s.to_owned());
        let set = |s: &str| -> Vec<String> {
            let s = s.trim_start_matches('{').trim_end_matches('}');
            if s.is_empty() { vec![] } else { s.split(", ").map(str::to_owned).collect() }
        };
        Row {
            triple: v[0].into(),
            os: o(v[1]),
            abi: o(v[2]),
            arch: v[3].into(),
            env: o(v[4]),
            vendor: o(v[5]),
            families: set(v[6]),
            width: v[7].parse().expect("width"),
            endian: v[8].into(),
            atomics: set(v[9]),
            panic: v[10].into(),
        }
    }
    pub fn text(&self) -> String {
        let o = |s: &Option<String>| s.clone().unwrap_or("~".into());
        format!(
            "{}|{}|{}|{}|{}|{}|{{{}}}|{}|{}|{{{}}}|{}",
            self.triple, o(&self.os), o(&self.abi), self.arch, o(&self.env), o(&self.vendor),
            self.families.join(", "), self.width, self.endian, self.atomics.join(", "), self.panic
        )
    }
    /// Whether rustc would set key = "value" for this target
    pub fn sets(&self, k: Kind, v: &str) -> bool {
        let or = |o: &Option<String>, d: &str| o.as_deref().unwrap_or(d) == v;
        match k {
            Kind::Abi => or(&self.abi, ""),
            Kind::Arch => self.arch == v,
            Kind::Endian => self.endian == v,
            Kind::Env => or(&self.env, ""),
            Kind::Family => self.families.iter().any(|f| f == v),
            Kind::Atomic => self.atomics.iter().any(|f| f == v),
            Kind::Os => or(&self.os, "none"),
            Kind::Panic => self.panic == v,
            Kind::Width => self.width.to_string() == v,
            Kind::Vendor => or(&self.vendor, "unknown"),
        }
    }
    pub fn of(t: &TargetInfo) -> Row {
        Row {
            triple: t.triple.0.to_string(),
            os: t.os.as_ref().map(|x| x.0.to_string()),
            abi: t.abi.as_ref().map(|x| x.0.to_string()),
            arch: t.arch.0.to_string(),
            env: t.env.as_ref().map(|x| x.0.to_string()),
            vendor: t.vendor.as_ref().map(|x| x.0.to_string()),
            families: t.families.iter().map(|x| x.0.to_string()).collect(),
            width: t.pointer_width as u32,
            endian: if t.endian == Endian::big { "big" } else { "little" }.into(),
            atomics: t.has_atomics.iter().map(|x| match x {
                HasAtomic::IntegerSize(n) => n.to_string(),
                HasAtomic::Pointer => "ptr".into(),
                _ => "?".into(),
            }).collect(),
            panic: t.panic.0.to_string(),
        }
    }
    /// The target, with its texts owned or static, and its sets given in any order
    pub fn build(&self, stat: bool) -> TargetInfo {
        macro_rules! f {
            ($k:ident, $s:expr) => {
                if stat { $k::new_const(leak($s)) } else { $k::new(String::from($s)) }
            };
        }
        let fams = self.families.iter().map(|x| f!(Family, x.as_str()));
        let atoms = self.atomics.iter().map(|x| atomic(x));
        TargetInfo {
            triple: f!(Triple, self.triple.as_str()),
            os: self.os.as_deref().map(|x| f!(Os, x)),
            abi: self.abi.as_deref().map(|x| f!(Abi, x)),
            arch: f!(Arch, self.arch.as_str()),
            env: self.env.as_deref().map(|x| f!(Env, x)),
            vendor: self.vendor.as_deref().map(|x| f!(Vendor, x)),
            families: if stat { Families::new(fams) } else { Families::new(fams.rev()) },
            pointer_width: self.width as u8,
            endian: if self.endian == "big" { Endian::big } else { Endian::little },
            has_atomics: if stat { HasAtomics::new(atoms) } else { HasAtomics::new(atoms.rev()) },
            panic: f!(Panic, self.panic.as_str()),
        }
    }
}

fn atomic(x: &str) -> HasAtomic {
    match x {
        "ptr" => HasAtomic::Pointer,
        n => HasAtomic::IntegerSize(n.parse().expect("atomic")),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Abi,
    Arch,
    Endian,
    Env,
    Family,
    Atomic,
    Os,
    Panic,
    Width,
    Vendor,
}

pub const KINDS: [Kind; 10] = [
    Kind::Abi, Kind::Arch, Kind::Endian, Kind::Env, Kind::Family, Kind::Atomic, Kind::Os, Kind::Panic, Kind::Width, Kind::Vendor,
];

impl Kind {
    pub fn key(self) -> &'static str {
        match self {
            Kind::Abi => "target_abi",
            Kind::Arch => "target_arch",
            Kind::Endian => "target_endian",
            Kind::Env => "target_env",
            Kind::Family => "target_family",
            Kind::Atomic => "target_has_atomic",
            Kind::Os => "target_os",
            Kind::Panic => "panic",
            Kind::Width => "target_pointer_width",
            Kind::Vendor => "target_vendor",
        }
    }
    /// The predicate, if the value makes sense for it
    pub fn pred(self, v: &str, stat: bool) -> Option<TP> {
        macro_rules! f {
            ($k:ident) => {
                if stat { $k::new_const(leak(v)) } else { $k::new(v.to_owned()) }
            };
        }
        let plain = |max: u32| v.parse::<u32>().ok().filter(|n| *n <= max && n.to_string() == v);
        Some(match self {
            Kind::Abi => TP::Abi(f!(Abi)),
            Kind::Arch => TP::Arch(f!(Arch)),
            Kind::Endian => TP::Endian(match v {
                "big" => Endian::big,
                "little" => Endian::little,
                _ => return None,
            }),
            Kind::Env => TP::Env(f!(Env)),
            Kind::Family => TP::Family(f!(Family)),
            Kind::Atomic => TP::HasAtomic(if v == "ptr" { HasAtomic::Pointer } else { HasAtomic::IntegerSize(plain(65535)? as u16) }),
            Kind::Os => TP::Os(f!(Os)),
            Kind::Panic => TP::Panic(f!(Panic)),
            Kind::Width => TP::PointerWidth(plain(255)? as u8),
            Kind::Vendor => TP::Vendor(f!(Vendor)),
        })
    }
}

pub static GOLDEN: LazyLock<Vec<Row>> = LazyLock::new(|| include_str!("../../data/golden.txt").lines().map(Row::parse).collect());
pub const GOLDEN_VERSION: &str = "1.86.0";

/// Values in use by any target for any option, the components of triples, and others
pub fn all_values() -> Vec<String> {
    let mut s: BTreeSet<String> = BTreeSet::new();
    let rows: Vec<Row> = GOLDEN.iter().cloned().chain(ALL_BUILTINS.iter().map(Row::of)).collect();
    for r in &rows {
        s.extend([r.triple.clone(), r.arch.clone(), r.endian.clone(), r.panic.clone(), r.width.to_string()]);
        s.extend(r.os.clone());
        s.extend(r.abi.clone());
        s.extend(r.env.clone());
        s.extend(r.vendor.clone());
        s.extend(r.families.iter().cloned());
        s.extend(r.atomics.iter().cloned());
        s.extend(r.triple.split('-').map(str::to_owned));
    }
    for x in ["", " ", "none", "unknown", "bogus", "x", "abort", "unwind", "immediate-abort", "0", "1", "8", "16", "31", "33", "63", "65",
        "127", "128", "129", "255", "256", "65535", "ptr", "wasm", "unix", "windows", "macosx", "darwin", "Linux", "linux ", " linux", "é"] {
        s.insert(x.into());
    }
    s.into_iter().collect()
}

/// Values, and others that are much like them
pub fn similar_values() -> Vec<String> {
    let mut s: BTreeSet<String> = BTreeSet::new();
    for v in all_values() {
        let up = v.to_uppercase();
        s.insert(v.replace('-', "_"));
        s.insert(v.replace('_', "-"));
        s.insert(format!("{v}x"));
        s.insert(format!("x{v}"));
        s.insert(format!("{v} "));
        let mut c = v.chars();
        c.next_back();
        s.insert(c.as_str().to_owned());
        let mut c = v.chars();
        c.next();
        s.insert(c.as_str().to_owned());
        let mut c = v.chars();
        if let Some(f) = c.next() {
            s.insert(f.to_uppercase().chain(c).collect());
        }
        s.insert(up);
        s.insert(v);
    }
    // words of the sources, with less around them
    for w in mine::LIB.words.iter().chain(&mine::LIB.idents) {
        s.insert(w.clone());
        s.insert(w.to_lowercase());
    }
    for w in &mine::LIB.words {
        s.insert(format!("{w}x"));
        s.insert(w.to_uppercase());
        s.insert(w.strip_suffix('-').unwrap_or(w).to_owned());
    }
    s.extend(mine::LIB.counts(70_000).into_iter().map(|n| n.to_string()));
    s.into_iter().filter(|v| !v.contains(['|', '~', '\n', '"'])).collect()
}

// ---- P10 ----------------------------------------------------------------------------------

pub fn p10(text: &str, st: &mut Stats) -> Res {
    static BY_NAME: LazyLock<HashMap<&'static str, usize>> =
        LazyLock::new(|| ALL_BUILTINS.iter().enumerate().map(|(i, t)| (&*t.triple.0, i)).collect());
    st.traces += 1;
    st.cover.transitions += 1;
    if text == "<list>" {
        for (i, w) in ALL_BUILTINS.windows(2).enumerate() {
            if w[0].triple.0 >= w[1].triple.0 {
                return Err(bad("strictly sorted by triple", format!("entries {i} and {}: {} and {}", i + 1, w[0].triple, w[1].triple)));
            }
        }
        return Ok(());
    }
    let want = BY_NAME.get(text).map(|i| &ALL_BUILTINS[*i]);
    let got = get_builtin_target_by_triple(text);
    match (want, got) {
        (None, None) => {
            st.outcome("nothing");
            Ok(())
        }
        (Some(w), Some(g)) if w == g && g.triple.0 == text => {
            st.cover.states.insert(BY_NAME[text] as u64);
            st.outcome("found");
            Ok(())
        }
        _ => Err(bad(
            want.map_or("nothing".into(), |w| Row::of(w).text()),
            got.map_or("nothing".into(), |g| Row::of(g).text()),
        )),
    }
}

/// All of ASCII, and some others
static EDITS: LazyLock<Vec<char>> = LazyLock::new(|| {
    (0u8..128).map(char::from).chain(['é', '\u{80}', '\u{a0}', '\u{130}', '\u{17f}', '\u{2010}', '\u{2011}', '\u{ff0d}', '\u{212a}', '\u{10ffff}']).collect()
});
/// Fewer, for longer texts of them
const FEW: [char; 46] = [
    'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
    '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-', '_', '.', ' ', '\0', 'A', '\u{7f}', 'é', '\u{10ffff}', '/',
];

pub fn edits(s: &str, f: &mut dyn FnMut(&str)) {
    let cs: Vec<char> = s.chars().collect();
    let mut b = String::new();
    for i in 0..=cs.len() {
        for &e in EDITS.iter() {
            b.clear();
            b.extend(&cs[..i]);
            b.push(e);
            b.extend(&cs[i..]);
            f(&b);
            if i < cs.len() {
                b.clear();
                b.extend(&cs[..i]);
                b.push(e);
                b.extend(&cs[i + 1..]);
                f(&b);
            }
        }
        if i < cs.len() {
            b.clear();
            b.extend(&cs[..i]);
            b.extend(&cs[i + 1..]);
            f(&b);
            b.clear();
            b.extend(&cs[..i]);
            let up = cs[i].to_uppercase();
            b.extend(up);
            b.extend(&cs[i + 1..]);
            f(&b);
            if i + 1 < cs.len() {
                b.clear();
                b.extend(&cs[..i]);
                b.push(cs[i + 1]);
                b.push(cs[i]);
                b.extend(&cs[i + 2..]);
                f(&b);
            }
        }
    }
}

pub fn explore10(r: &mut Run) {
    let names: Vec<&'static str> = ALL_BUILTINS.iter().map(|t| leak(&t.triple.0)).collect();
    r.space("the list", 1, |_, c| c.case("<list>", |st| p10("<list>", st)));
    r.space("each builtin", names.len() as u64, |i, c| c.case(names[i as usize], |st| p10(names[i as usize], st)));
    r.space("one edit away", names.len() as u64, |i, c| {
        edits(names[i as usize], &mut |t| c.case(t, |st| p10(t, st)));
    });
    r.space("two characters at either end", names.len() as u64, |i, c| {
        let n = names[i as usize];
        for a in EDITS.iter() {
            for b in EDITS.iter() {
                for t in [format!("{n}{a}{b}"), format!("{a}{b}{n}"), format!("{a}{n}{b}")] {
                    c.case(&t, |st| p10(&t, st));
                }
            }
        }
    });
    r.space("any character at the end", names.len() as u64 * 17, |i, c| {
        let n = names[(i / 17) as usize];
        let mut t = String::from(n);
        for x in (i % 17) << 16..((i % 17) + 1) << 16 {
            if let Some(x) = char::from_u32(x as u32) {
                t.push(x);
                c.case(&t, |st| p10(&t, st));
                t.truncate(n.len());
            }
        }
    });
    r.space("any character anywhere in some", 17, |i, c| {
        for n in [names[0], names[names.len() / 2], "x86_64-unknown-linux-gnu", names[names.len() - 1]] {
            for at in [0, 1, n.find('-').unwrap_or(2), n.len() - 1] {
                for x in i << 16..(i + 1) << 16 {
                    if let Some(x) = char::from_u32(x as u32) {
                        for skip in 0..2 {
                            let t = format!("{}{x}{}", &n[..at], &n[at + skip..]);
                            c.case(&t, |st| p10(&t, st));
                        }
                    }
                }
            }
        }
    });
    r.notes.push(mine::LIB.note());
    let words: Vec<&String> = mine::LIB.words.iter().chain(&mine::LIB.idents).collect();
    r.space("words of the sources and triples", names.len() as u64, |i, c| {
        let n = names[i as usize];
        let parts: Vec<&str> = n.split('-').collect();
        let mut try_one = |t: &str| c.case(t, |st| p10(t, st));
        for w in &words {
            for j in ["", "-", "_", "@", ".", "/", " ", "#", ":"] {
                try_one(&format!("{n}{j}{w}"));
                try_one(&format!("{w}{j}{n}"));
            }
            try_one(&format!("{n}{w}1"));
            try_one(&format!("{n}-{w}1.2"));
            for k in 0..parts.len() {
                let mut p = parts.clone();
                p[k] = w;
                try_one(&p.join("-"));
                p[k] = parts[k];
                p.insert(k, w);
                try_one(&p.join("-"));
                p.truncate(k + 1);
                try_one(&p.join("-"));
            }
        }
        // parts left out, doubled, exchanged
        for k in 0..parts.len() {
            for l in 0..parts.len() {
                let mut p = parts.clone();
                p.swap(k, l);
                try_one(&p.join("-"));
                p = parts.clone();
                p.insert(l, parts[k]);
                try_one(&p.join("-"));
                p = parts.clone();
                p.remove(k);
                try_one(&p.join("-"));
                if l < p.len() {
                    p.remove(l);
                    try_one(&p.join("-"));
                }
            }
        }
    });
    // parts, repetitions
    r.space("parts of triples", names.len() as u64, |i, c| {
        let n = names[i as usize];
        for a in 0..=n.len() {
            for b in a..=n.len() {
                c.case(&n[a..b], |st| p10(&n[a..b], st));
            }
        }
        for (p, s) in [("", " "), (" ", ""), ("", "\n"), ("", "\0"), ("\"", "\""), ("", "-"), ("-", ""), ("", "é"), ("\u{feff}", ""), ("", ".json")] {
            let t = format!("{p}{n}{s}");
            c.case(&t, |st| p10(&t, st));
        }
        for t in [n.to_uppercase(), n.replace('-', "_"), n.replace('_', "-"), n.replace('-', ""), n.replace('-', "--"), n.chars().rev().collect(), n.repeat(2), n.repeat(1000)] {
            c.case(&t, |st| p10(&t, st));
        }
    });
    r.space("pairs joined", names.len() as u64, |i, c| {
        for b in &names {
            let a = names[i as usize];
            for t in [format!("{a}{b}"), format!("{a}-{b}")] {
                c.case(&t, |st| p10(&t, st));
            }
            // the middle between the two
            for k in [a.len() / 2, a.find('-').unwrap_or(0)] {
                for l in [b.len() / 2, b.find('-').unwrap_or(0), b.rfind('-').unwrap_or(0)] {
                    if a.is_char_boundary(k) && b.is_char_boundary(l) {
                        let t = format!("{}{}", &a[..k], &b[l..]);
                        c.case(&t, |st| p10(&t, st));
                    }
                }
            }
        }
    });
    // every combination of components, of 2 to 4 (5) parts
    let mut pos: [BTreeSet<String>; 4] = Default::default();
    for n in &names {
        let p: Vec<&str> = n.split('-').collect();
        for (i, x) in p.iter().enumerate().take(4) {
            pos[i].insert(x.to_string());
        }
        // a three part triple without vendor has its os second
        if p.len() < 4 {
            pos[p.len()].insert(String::new());
        }
    }
    let pos: Vec<Vec<String>> = pos.into_iter().map(|s| s.into_iter().collect()).collect();
    let (a, b, c3, d) = (&pos[0], &pos[1], &pos[2], &pos[3]);
    r.space("combinations of components", (a.len() * b.len()) as u64, |i, c| {
        let (x, y) = (&a[i as usize % a.len()], &b[i as usize / a.len()]);
        let mut t = String::new();
        for z in c3 {
            for w in d.iter().map(String::as_str).chain([""]) {
                t.clear();
                t.push_str(x);
                for p in [y.as_str(), z.as_str(), w] {
                    if !p.is_empty() {
                        t.push('-');
                        t.push_str(p);
                    }
                }
                c.case(&t, |st| p10(&t, st));
            }
        }
    });
    // short texts
    let al: Vec<char> = FEW.to_vec();
    let n = al.len() as u64;
    r.space("short texts", n * n, |i, c| {
        let mut t: String = [al[(i % n) as usize], al[(i / n) as usize]].iter().collect();
        if i == 0 {
            c.case("", |st| p10("", st));
        }
        if i < n {
            let s = al[i as usize].to_string();
            c.case(&s, |st| p10(&s, st));
        }
        c.case(&t.clone(), |st| p10(&t, st));
        for e in &al {
            t.push(*e);
            c.case(&t.clone(), |st| p10(&t, st));
            if r_thorough() {
                for g in &al {
                    t.push(*g);
                    c.case(&t.clone(), |st| p10(&t, st));
                    t.pop();
                }
            }
            t.pop();
        }
    });
    if r.thorough {
        r.space("two edits away", names.len() as u64 * 64, |i, c| {
            let (n, part) = (names[(i / 64) as usize], i % 64);
            let mut k = 0u64;
            let mut seen: HashSet<u64> = HashSet::new();
            edits(n, &mut |t| {
                k += 1;
                if k % 64 == part && seen.insert(k) {
                    let t = t.to_owned();
                    edits(&t, &mut |u| c.case(u, |st| p10(u, st)));
                }
            });
        });
    }
}

fn r_thorough() -> bool {
    static T: LazyLock<bool> = LazyLock::new(|| std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"));
    *T
}

pub fn test10(text: &str) -> String {
    format!("println!(\"{{:?}}\", cfg_expr::targets::get_builtin_target_by_triple({text:?}));")
}

// ---- P11 ----------------------------------------------------------------------------------

fn parse_target(text: &str) -> Result<Expression, Bad> {
    guarded(|| Expression::parse(text))?.map_err(|e| bad("accepted", format!("rejected: {e:?}")))
}

fn eval_target<T: TargetMatcher>(e: &Expression, t: &T) -> Option<bool> {
    e.eval(|p| match p {
        Predicate::Target(tp) => Some(tp.matches(t)),
        _ => None,
    })
}

/// case: <list>, or the triple, a bar, and the key, = and the value (or unix, windows)
pub fn p11(case: &str, st: &mut Stats) -> Res {
    st.traces += 1;
    st.cover.transitions += 1;
    if case == "<list>" {
        if rustc_version() != GOLDEN_VERSION {
            return Err(bad(GOLDEN_VERSION, rustc_version()));
        }
        let want: Vec<&str> = GOLDEN.iter().map(|r| r.triple.as_str()).collect();
        let got: Vec<&str> = ALL_BUILTINS.iter().map(|r| r.triple.as_str()).collect();
        let miss: Vec<_> = want.iter().filter(|t| !got.contains(t)).collect();
        let more: Vec<_> = got.iter().filter(|t| !want.contains(t)).collect();
        if !miss.is_empty() || !more.is_empty() || want.len() != got.len() {
            return Err(bad(format!("the {} targets of rustc {GOLDEN_VERSION}", want.len()), format!("{} targets, missing {miss:?}, others {more:?}", got.len())));
        }
        return Ok(());
    }
    let (triple, text) = case.split_once('|').expect("case");
    let (k, v) = match text.split_once('=') {
        Some((k, v)) => (KINDS.into_iter().find(|x| x.key() == k).expect("key"), v),
        None => (Kind::Family, text),
    };
    let Some(row) = GOLDEN.iter().find(|r| r.triple == triple) else { return Ok(()) };
    let Some(t) = ALL_BUILTINS.iter().find(|t| t.triple.0 == triple) else { return Err(bad("a builtin target", "none")) };
    let want = row.sets(k, v);
    let cfg = if text.contains('=') { format!("{} = \"{v}\"", k.key()) } else { text.to_owned() };
    let e = parse_target(&cfg)?;
    let got = guarded(|| eval_target(&e, t))?;
    if got != Some(want) {
        return Err(bad(format!("{want}: {}", row.text()), format!("{got:?}")));
    }
    if let Some(tp) = k.pred(v, true) {
        let got = guarded(|| tp.matches(t))?;
        if got != want {
            return Err(bad(format!("{want}: {}", row.text()), format!("{got} from matches")));
        }
    }
    let e = parse_target(&format!("not(any({cfg}, unix, windows))"))?;
    let want_not = !(want || row.sets(Kind::Family, "unix") || row.sets(Kind::Family, "windows"));
    let got = guarded(|| eval_target(&e, t))?;
    if got != Some(want_not) {
        return Err(bad(format!("{want_not} for not(any(.., unix, windows))"), format!("{got:?}")));
    }
    st.outcome(if want { "true" } else { "false" });
    Ok(())
}

pub fn explore11(r: &mut Run) {
    let values = similar_values();
    let mut texts: Vec<String> = vec!["unix".into(), "windows".into()];
    for k in KINDS {
        for v in &values {
            if k.pred(v, false).is_some() {
                texts.push(format!("{}={v}", k.key()));
            }
        }
        if k == Kind::Atomic || k == Kind::Width {
            texts.extend((0..=255).map(|n| format!("{}={n}", k.key())));
        }
    }
    texts.sort();
    texts.dedup();
    r.space("the list", 1, |_, c| c.case("<list>", |st| p11("<list>", st)));
    let n = texts.len() as u64;
    r.space("builtin targets and target predicates", GOLDEN.len() as u64 * n, |i, c| {
        let case = format!("{}|{}", GOLDEN[(i / n) as usize].triple, texts[(i % n) as usize]);
        c.case(&case, |st| {
            st.cover.states.insert(i);
            p11(&case, st)
        });
    });
}

pub fn test11(case: &str) -> String {
    let Some((t, text)) = case.split_once('|') else { return String::new() };
    let cfg = text.split_once('=').map_or(text.to_owned(), |(k, v)| format!("{k} = \"{v}\""));
    format!(
        "let e = cfg_expr::Expression::parse({cfg:?}).unwrap();\n    let t = cfg_expr::targets::get_builtin_target_by_triple({t:?}).unwrap();\n    println!(\"{{}}\", e.eval(|p| match p {{ cfg_expr::Predicate::Target(tp) => tp.matches(t), _ => false }}));"
    )
}

// ---- P12 ----------------------------------------------------------------------------------

const TEXTS12: [&str; 6] = ["", "none", "unknown", "x", "unix", "windows"];
const ATOMS12: [&str; 6] = ["8", "16", "64", "128", "ptr", "65535"];

struct Preds12 {
    /// kind, value, the predicate built directly (owned and static), and parsed
    all: Vec<(Kind, String, TP, TP, Expression)>,
}

fn preds12(kinds: &[Kind], values: &[String]) -> Preds12 {
    let mut all = Vec::new();
    for k in kinds {
        for v in values {
            if let (Some(a), Some(b)) = (k.pred(v, false), k.pred(v, true)) {
                if let Ok(e) = Expression::parse(&format!("{}=\"{v}\"", k.key())) {
                    all.push((*k, v.clone(), a, b, e));
                }
            }
        }
    }
    if kinds.contains(&Kind::Family) {
        for v in ["unix", "windows"] {
            all.push((Kind::Family, v.into(), Kind::Family.pred(v, false).unwrap(), Kind::Family.pred(v, true).unwrap(), Expression::parse(v).expect("unix, windows")));
        }
    }
    Preds12 { all }
}

fn base12() -> Preds12 {
    let v: Vec<String> = TEXTS12.iter().chain(&ATOMS12).chain(&["0", "32", "255", "127", "big", "little", "unwind", "abort"]).map(|s| s.to_string()).collect();
    preds12(&KINDS, &v)
}

fn wide12() -> HashMap<Kind, Preds12> {
    let mut v = similar_values();
    v.extend((0..=300).map(|n| n.to_string()));
    KINDS.into_iter().map(|k| (k, preds12(&[k], &v))).collect()
}

/// The values of each builtin
fn of12() -> HashMap<String, Preds12> {
    let of = |r: &Row| {
        let mut v: BTreeSet<String> = [&r.os, &r.abi, &r.env, &r.vendor].into_iter().flatten().cloned().collect();
        v.extend([r.arch.clone(), r.panic.clone(), r.endian.clone(), r.width.to_string()]);
        v.extend(r.families.iter().chain(&r.atomics).cloned());
        v.extend(r.triple.split('-').map(str::to_owned));
        preds12(&KINDS, &v.into_iter().collect::<Vec<_>>())
    };
    GOLDEN.iter().map(|r| (r.triple.clone(), of(r))).collect()
}

// each thread has its own: whether expressions can be shared between threads is for P16
thread_local! {
    static BASE12: LazyCell<Preds12> = LazyCell::new(base12);
    static WIDE12: LazyCell<HashMap<Kind, Preds12>> = LazyCell::new(wide12);
    static OF12: LazyCell<HashMap<String, Preds12>> = LazyCell::new(of12);
}

/// case: a row, optionally with a bar and the key of which many more values are tried; or = and
/// the one value which is tried of each key; or + and two builtins of which all values are
pub fn p12(case: &str, st: &mut Stats) -> Res {
    match case.split('|').nth(11) {
        Some(k) if k.starts_with('=') => p12_with(case, &[&preds12(&KINDS, &[k[1..].to_owned()])], st),
        Some(k) if k.starts_with('+') => OF12.with(|o| p12_with(case, &k[1..].split('+').map(|t| &o[t]).collect::<Vec<_>>(), st)),
        Some(k) => WIDE12.with(|w| p12_with(case, &[&w[&KINDS.into_iter().find(|x| x.key() == k).expect("key")]], st)),
        None => BASE12.with(|b| p12_with(case, &[&**b], st)),
    }
}

fn p12_with(case: &str, sets: &[&Preds12], st: &mut Stats) -> Res {
    let row = Row::parse(case);
    let odd = case.len() % 2 == 1;
    let t = guarded(|| row.build(odd))?;
    let ex = guarded(|| {
        for (k, v, a, b, e) in sets.iter().flat_map(|s| &s.all) {
            let want = row.sets(*k, v);
            let got = (a.matches(&t), t.matches(b), eval_target(e, &t));
            if got != (want, want, Some(want)) {
                return Err(bad(format!("{}=\"{v}\" is {want}", k.key()), format!("{got:?} (built from an owned, from a static text, parsed)")));
            }
        }
        Ok(())
    })?;
    ex?;
    let n: usize = sets.iter().map(|s| s.all.len()).sum();
    st.traces += n as u64;
    st.cover.transitions += n as u64;
    Ok(())
}

pub fn explore12(r: &mut Run) {
    let opt: Vec<Option<String>> = std::iter::once(None).chain(TEXTS12.iter().map(|s| Some(s.to_string()))).collect();
    let os = &opt[..6];
    let abi = &opt[..4];
    let env = &opt[..5];
    let vendor = &opt[..5];
    let arch: &[&str] = if r.thorough { &["", "unknown", "x", "unix"] } else { &["", "unknown", "x"] };
    let triple: &[&str] = if r.thorough { &["", "x86_64-unknown-linux-gnu", "x"] } else { &["x86_64-unknown-linux-gnu"] };
    let fams: &[&[&str]] = &[&[], &["unix"], &["windows"], &["unix", "windows"], &["x"], &["", "none"]];
    let atoms: &[&[&str]] = if r.thorough { &[&[], &["8"], &["ptr"], &["8", "16", "64", "ptr"], &["65535"]] } else { &[&[], &["8", "ptr"], &["16", "64", "128", "65535"]] };
    let width: &[u32] = &[0, 32, 64, 255];
    let panic: &[&str] = &["unwind", "abort", ""];
    let dims = [os.len(), abi.len(), env.len(), vendor.len(), arch.len(), triple.len(), fams.len(), atoms.len(), width.len(), 2, panic.len()];
    let n: u64 = dims.iter().map(|d| *d as u64).product();
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    r.space("all combinations of field values", n, |mut i, c| {
        let i0 = i;
        let mut d = [0usize; 11];
        for (k, m) in dims.iter().enumerate() {
            d[k] = (i % *m as u64) as usize;
            i /= *m as u64;
        }
        let row = Row {
            triple: triple[d[5]].into(),
            os: os[d[0]].clone(),
            abi: abi[d[1]].clone(),
            arch: arch[d[4]].into(),
            env: env[d[2]].clone(),
            vendor: vendor[d[3]].clone(),
            families: own(fams[d[6]]),
            width: width[d[8]],
            endian: ["big", "little"][d[9]].into(),
            atomics: own(atoms[d[7]]),
            panic: panic[d[10]].into(),
        };
        let case = row.text();
        c.case(&case, |st| {
            st.cover.states.insert(i0);
            p12(&case, st)
        });
    });
    // one field with any value, and a predicate for it with any value
    let values = similar_values();
    let m = values.len() as u64;
    let text_kinds = [Kind::Abi, Kind::Arch, Kind::Env, Kind::Family, Kind::Os, Kind::Panic, Kind::Vendor];
    let base = Row { triple: "x86_64-unknown-linux-gnu".into(), arch: "x".into(), width: 64, endian: "little".into(), panic: "unwind".into(), ..Row::default() };
    r.space("all values of each text field", m * text_kinds.len() as u64, |i, c| {
        let k = text_kinds[(i / m) as usize];
        let v = values[(i % m) as usize].clone();
        let mut row = base.clone();
        match k {
            Kind::Abi => row.abi = Some(v),
            Kind::Arch => row.arch = v,
            Kind::Env => row.env = Some(v),
            Kind::Family if v.is_empty() || v.contains(", ") || v.contains(['{', '}']) => return,
            Kind::Family => row.families = vec![v],
            Kind::Os => row.os = Some(v),
            Kind::Panic => row.panic = v,
            _ => row.vendor = Some(v),
        }
        let case = format!("{}|{}", row.text(), k.key());
        c.case(&case, |st| p12(&case, st));
    });
    r.space("absent fields", 10, |i, c| {
        let case = format!("{}|{}", base.text(), KINDS[i as usize].key());
        c.case(&case, |st| p12(&case, st));
    });
    r.space("all widths and atomics", 256, |i, c| {
        for e in ["big", "little"] {
            let mut row = Row { width: i as u32, endian: e.into(), ..base.clone() };
            for a in [vec![], vec![i.to_string()], vec![i.to_string(), "ptr".into()], vec![i.to_string(), "65535".into()], vec![(i * 256).to_string()]] {
                row.atomics = a;
                for k in [Kind::Width, Kind::Atomic, Kind::Endian] {
                    let case = format!("{}|{}", row.text(), k.key());
                    c.case(&case, |st| p12(&case, st));
                }
            }
        }
    });
    // all subsets
    let f = ["unix", "windows", "wasm", "x", "y", "aunix", "unix2", "none"];
    r.space("all subsets of families and atomics", 256, |i, c| {
        let mut row = base.clone();
        let at = ["0", "1", "8", "16", "32", "64", "128", "ptr"];
        for b in 0..8 {
            if i >> b & 1 == 1 {
                row.families.push(f[b].into());
                row.atomics.push(at[b].into());
            }
        }
        row.families.sort();
        for k in [Kind::Family, Kind::Atomic] {
            let case = format!("{}|{}", row.text(), k.key());
            c.case(&case, |st| p12(&case, st));
        }
        // and many elements
        row.families = (0..=i).map(|j| format!("f{j:03}")).collect();
        row.families.push("unix".into());
        row.atomics = (0..=i).map(|j| (j * 3).to_string()).collect();
        for k in [Kind::Family, Kind::Atomic] {
            let case = format!("{}|{}", row.text(), k.key());
            c.case(&case, |st| p12(&case, st));
        }
    });
    // every builtin, as a custom target with another triple, and with one field of another
    let g = GOLDEN.len() as u64;
    r.space("builtins with one field changed", g, |i, c| {
        let mut row = GOLDEN[i as usize].clone();
        row.triple = "custom".into();
        let case = row.text();
        c.case(&case, |st| p12(&case, st));
        for k in KINDS {
            let case = format!("{}|{}", row.text(), k.key());
            c.case(&case, |st| p12(&case, st));
        }
        for o in GOLDEN.iter() {
            for f in 0..10 {
                let mut row = row.clone();
                let (a, b) = (&mut row, o);
                match f {
                    0 => a.os = b.os.clone(),
                    1 => a.abi = b.abi.clone(),
                    2 => a.arch = b.arch.clone(),
                    3 => a.env = b.env.clone(),
                    4 => a.vendor = b.vendor.clone(),
                    5 => a.families = b.families.clone(),
                    6 => a.width = b.width,
                    7 => a.endian = b.endian.clone(),
                    8 => a.atomics = b.atomics.clone(),
                    _ => a.triple = b.triple.clone(),
                }
                let case = row.text();
                c.case(&case, |st| p12(&case, st));
                let case = format!("{}|+{}+{}", row.text(), GOLDEN[i as usize].triple, o.triple);
                c.case(&case, |st| p12(&case, st));
            }
        }
    });
    let long = if r.thorough { 80 } else { 40 };
    r.space("values of each length which differ in one place", long * text_kinds.len() as u64, |i, c| {
        let (n, k) = ((i / text_kinds.len() as u64) as usize + 1, text_kinds[i as usize % text_kinds.len()]);
        for u in 0..UNLIKE.len() {
            for place in 0..=n {
                let v = unlike(n, u, place);
                let mut row = base.clone();
                match k {
                    Kind::Abi => row.abi = Some(v),
                    Kind::Arch => row.arch = v,
                    Kind::Env => row.env = Some(v),
                    Kind::Family => row.families = vec![v],
                    Kind::Os => row.os = Some(v),
                    Kind::Panic => row.panic = v,
                    _ => row.vendor = Some(v),
                }
                for other in [n, place] {
                    let case = format!("{}|={}", row.text(), unlike(n, u, other));
                    c.case(&case, |st| p12(&case, st));
                }
            }
        }
    });
    r.space("builtins with one field absent", g, |i, c| {
        let row = &GOLDEN[i as usize];
        for triple in [row.triple.as_str(), "custom"] {
            for f in 0..7 {
                let mut a = Row { triple: triple.into(), ..row.clone() };
                match f {
                    0 => a.os = None,
                    1 => a.abi = None,
                    2 => a.env = None,
                    3 => a.vendor = None,
                    4 => a.families.clear(),
                    5 => a.atomics.clear(),
                    _ => (a.os, a.abi, a.env, a.vendor, a.families, a.atomics) = Default::default(),
                }
                for case in [a.text(), format!("{}|+{}", a.text(), row.triple)] {
                    c.case(&case, |st| p12(&case, st));
                }
            }
        }
    });
    // a value says nothing elsewhere
    let values: Vec<String> = values.into_iter().filter(|v| !v.is_empty() && !v.contains(", ") && !v.contains(['{', '}', '+', '='])).collect();
    r.space("values in another field or the triple", values.len() as u64, |i, c| {
        let v = &values[i as usize];
        for full in [false, true] {
            let b = if full {
                let x = |s: &str| Some(s.to_owned());
                Row { os: x("o"), abi: x("a"), env: x("e"), vendor: x("v"), families: vec!["f".into()], atomics: vec!["8".into()], ..base.clone() }
            } else {
                base.clone()
            };
            for f in 0..13 {
                let mut a = b.clone();
                match f {
                    0 => a.os = Some(v.clone()),
                    1 => a.abi = Some(v.clone()),
                    2 => a.arch = v.clone(),
                    3 => a.env = Some(v.clone()),
                    4 => a.vendor = Some(v.clone()),
                    5 => a.families = vec![v.clone()],
                    6 => a.panic = v.clone(),
                    7 => a.triple = v.clone(),
                    8 => a.triple = format!("{v}-b-c-d"),
                    9 => a.triple = format!("a-b-c-{v}"),
                    10 => a.triple = format!("a-{v}-c-d"),
                    11 => a.triple = format!("a-b-{v}-d"),
                    _ => a.triple = format!("a-b-{v}"),
                }
                let case = format!("{}|={v}", a.text());
                c.case(&case, |st| p12(&case, st));
            }
        }
    });
}

/// Characters which differ a little
pub const UNLIKE: [(char, char); 6] = [('x', 'y'), ('x', 'X'), ('5', '\u{15}'), ('_', '-'), ('\u{e9}', '\u{e8}'), ('x', '\u{1f980}')];

/// A text of n characters of the u-th kind, of which the i-th differs
pub fn unlike(n: usize, u: usize, i: usize) -> String {
    (0..n).map(|k| if k == i { UNLIKE[u].1 } else { UNLIKE[u].0 }).collect()
}

// ---- P15 ----------------------------------------------------------------------------------

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::hash::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! newtype {
    ($k:ident, $a:expr, $b:expr) => {{
        use std::borrow::Cow;
        let (a, b): (&str, &str) = ($a, $b);
        let sa = leak(a);
        let sb = leak(b);
        let xs = [
            $k::new(sa), $k::new(a.to_owned()), $k::new(Cow::Borrowed(sa)), $k::new(Cow::<'static, str>::Owned(a.to_owned())),
            $k::new_const(sa), $k(Cow::Borrowed(sa)), $k(Cow::Owned(a.to_owned())), $k::new(a.to_owned()).clone(),
        ];
        let ys = [
            $k::new(sb), $k::new(b.to_owned()), $k::new(Cow::Borrowed(sb)), $k::new(Cow::<'static, str>::Owned(b.to_owned())),
            $k::new_const(sb), $k(Cow::Borrowed(sb)), $k(Cow::Owned(b.to_owned())), $k::new_const(sb).clone(),
        ];
        let n = stringify!($k);
        for (i, x) in xs.iter().enumerate() {
            if x.as_str() != a || AsRef::<str>::as_ref(x) != a || &*x.0 != a {
                return Err(bad(format!("{n}: the text {a:?}"), format!("{:?} (way {i})", x.as_str())));
            }
            if x.to_string() != a || format!("{x}") != a {
                return Err(bad(format!("{n}: prints {a:?}"), format!("{:?} (way {i})", x.to_string())));
            }
            for (j, y) in ys.iter().enumerate() {
                if (x == y) != (a == b) || (x != y) != (a != b) || (y == x) != (a == b) {
                    return Err(bad(format!("{n}: {a:?} == {b:?} is {}", a == b), format!("{} (ways {i}, {j})", x == y)));
                }
                if x.cmp(y) != a.cmp(b) || x.partial_cmp(y) != Some(a.cmp(b)) || (x < y) != (a < b) {
                    return Err(bad(format!("{n}: {a:?} compares {:?} to {b:?}", a.cmp(b)), format!("{:?} (ways {i}, {j})", x.cmp(y))));
                }
                if a == b && hash_of(x) != hash_of(y) {
                    return Err(bad(format!("{n}: equal hashes of {a:?}"), format!("different ones (ways {i}, {j})")));
                }
            }
        }
    }};
}

fn text15(a: &str, b: &str) -> Res {
    newtype!(Triple, a, b);
    newtype!(Abi, a, b);
    newtype!(Arch, a, b);
    newtype!(Vendor, a, b);
    newtype!(Os, a, b);
    newtype!(Family, a, b);
    newtype!(Env, a, b);
    newtype!(Panic, a, b);
    Ok(())
}

/// An iterator which says as little as possible about its length
struct Shy<I>(I);
impl<I: Iterator> Iterator for Shy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

fn leak_slice<T: Clone>(v: &[T]) -> &'static [T] {
    Box::leak(v.to_vec().into_boxed_slice())
}

/// Everything about one set. Elements in the order given, with repetitions.
fn set15<E: Ord + Clone + std::hash::Hash + std::fmt::Debug + std::fmt::Display, S: Ord + Clone + std::hash::Hash + std::fmt::Debug + std::fmt::Display>(
    given: &[E],
    universe: &[E],
    ways: &[S],
    list: impl Fn(&S) -> Vec<E>,
    as_ref: impl Fn(&S) -> Vec<E>,
    contains: impl Fn(&S, &E) -> bool,
) -> Res {
    let want: BTreeSet<E> = given.iter().cloned().collect();
    let want: Vec<E> = want.into_iter().collect();
    let print = format!("{{{}}}", want.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", "));
    for (i, s) in ways.iter().enumerate() {
        if list(s) != want || as_ref(s) != want {
            return Err(bad(format!("lists {want:?}"), format!("{:?} (way {i})", list(s))));
        }
        if s.to_string() != print {
            return Err(bad(format!("prints {print}"), format!("{s} (way {i})")));
        }
        for e in universe {
            if contains(s, e) != want.contains(e) {
                return Err(bad(format!("contains {e}: {}", want.contains(e)), format!("{} (way {i})", contains(s, e))));
            }
        }
        for t in ways {
            if s != t || t != s || s.cmp(t) != std::cmp::Ordering::Equal || hash_of(s) != hash_of(t) {
                return Err(bad(format!("{s} equal however built"), format!("{s:?} and {t:?} differ")));
            }
        }
    }
    Ok(())
}

fn families_ways(v: &[Family]) -> Vec<Families> {
    let mut sorted = v.to_vec();
    sorted.sort();
    sorted.dedup();
    vec![
        Families::new(v.to_vec()),
        Families::new(v.iter().cloned()),
        Families::new(v.iter().rev().cloned()),
        Families::new(Shy(v.iter().cloned())),
        Families::new(v.iter().cloned().chain(v.iter().cloned())),
        Families::new(v.iter().cloned().collect::<HashSet<_>>()),
        Families::new(v.iter().map(|f| Family::new_const(leak(f.as_str())))),
        Families::new_const(leak_slice(&sorted)),
        Families::new(v.to_vec()).clone(),
        Families::new(Families::new(v.to_vec()).iter().cloned()),
    ]
}

fn atomics_ways(v: &[HasAtomic]) -> Vec<HasAtomics> {
    let mut sorted = v.to_vec();
    sorted.sort();
    sorted.dedup();
    vec![
        HasAtomics::new(v.to_vec()),
        HasAtomics::new(v.iter().copied()),
        HasAtomics::new(v.iter().rev().copied()),
        HasAtomics::new(Shy(v.iter().copied())),
        HasAtomics::new(v.iter().copied().chain(v.iter().copied())),
        HasAtomics::new(v.iter().copied().collect::<HashSet<_>>()),
        HasAtomics::new_const(leak_slice(&sorted)),
        HasAtomics::new(v.to_vec()).clone(),
        HasAtomics::new(HasAtomics::new(v.to_vec()).iter().copied()),
    ]
}

/// case: kind of case, and its texts, separated by \u{1}
pub fn p15(case: &str, st: &mut Stats) -> Res {
    st.traces += 1;
    st.cover.transitions += 1;
    let v: Vec<&str> = case.split('\u{1}').collect();
    st.outcome(v[0]);
    match v[0] {
        "text" => guarded(|| text15(v[1], v[2]))?,
        "families" => guarded(|| {
            let f: Vec<Family> = v[1..].iter().map(|s| Family::new(s.to_string())).collect();
            let uni: Vec<Family> = v[1..].iter().map(|s| s.to_string())
                .chain(["unix", "windows", "wasm", "x", "", "unixx", "uni", "Unix"].map(String::from))
                .map(Family::new).collect();
            set15(&f, &uni, &families_ways(&f), |s| s.to_vec(), |s| AsRef::<[Family]>::as_ref(s).to_vec(), |s, e| s.contains(e))
        })?,
        "atomics" => guarded(|| {
            let f: Vec<HasAtomic> = v[1..].iter().map(|s| atomic(s)).collect();
            let uni: Vec<HasAtomic> = v[1..].iter().copied().chain(["0", "1", "7", "8", "9", "16", "32", "64", "128", "256", "264", "65535", "ptr"]).map(atomic).collect();
            set15(&f, &uni, &atomics_ways(&f), |s| s.to_vec(), |s| AsRef::<[HasAtomic]>::as_ref(s).to_vec(), |s, e| s.contains(*e))
        })?,
        // two sets: elements, then an empty text, then elements
        "families2" | "atomics2" => guarded(|| {
            let k = v.iter().position(|s| *s == "\u{2}").expect("two sets");
            let (a, b) = (&v[1..k], &v[k + 1..]);
            let same = a.iter().collect::<BTreeSet<_>>() == b.iter().collect::<BTreeSet<_>>();
            let (eq, ord, rev, hash) = if v[0] == "families2" {
                let x = Families::new(a.iter().map(|s| Family::new(s.to_string())));
                let y = Families::new(b.iter().map(|s| Family::new(leak(s))));
                (x == y, x.cmp(&y), y.cmp(&x), hash_of(&x) == hash_of(&y))
            } else {
                let x = HasAtomics::new(a.iter().map(|s| atomic(s)));
                let y = HasAtomics::new(b.iter().map(|s| atomic(s)));
                (x == y, x.cmp(&y), y.cmp(&x), hash_of(&x) == hash_of(&y))
            };
            if eq != same || (ord == std::cmp::Ordering::Equal) != same || rev != ord.reverse() || (same && !hash) {
                return Err(bad(format!("equal is {same}"), format!("==: {eq}, compares {ord:?} and {rev:?}, equal hashes: {hash}")));
            }
            Ok(())
        })?,
        "atomic" => {
            let s = v[1];
            let got = guarded(|| s.parse::<HasAtomic>())?;
            let digits = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && (s == "0" || !s.starts_with('0'));
            let want = if s == "ptr" {
                Some(HasAtomic::Pointer)
            } else if digits && s.len() <= 5 && s.parse::<u32>().unwrap() <= 65535 {
                Some(HasAtomic::IntegerSize(s.parse::<u32>().unwrap() as u16))
            } else {
                None
            };
            if got.as_ref().ok() != want.as_ref() {
                return Err(bad(format!("{want:?}"), format!("{got:?}")));
            }
            match got {
                Ok(a) => {
                    if a.to_string() != s {
                        return Err(bad(format!("prints {s:?}"), format!("{:?}", a.to_string())));
                    }
                }
                Err(e) => {
                    guarded(|| format!("{e} {e:?}"))?;
                }
            }
            Ok(())
        }
        "endian" => {
            let s = v[1];
            let got = guarded(|| s.parse::<Endian>())?;
            let want = match s {
                "big" => Some(Endian::big),
                "little" => Some(Endian::little),
                _ => None,
            };
            if got.as_ref().ok() != want.as_ref() {
                return Err(bad(format!("{want:?}"), format!("{got:?}")));
            }
            match got {
                Ok(e) if format!("{e:?}") != s => Err(bad(s, format!("{e:?}"))),
                Ok(_) => Ok(()),
                Err(e) => guarded(|| {
                    let _ = format!("{e} {e:?}");
                }),
            }
        }
        // two targets
        "targets" => guarded(|| {
            let (a, b) = (Row::parse(v[1]), Row::parse(v[2]));
            let (x, y, z) = (a.build(true), b.build(false), a.build(false));
            let same = a == b;
            if x != z || hash_of(&x) != hash_of(&z) || x.cmp(&z) != std::cmp::Ordering::Equal || x.clone() != z {
                return Err(bad("equal to the same target built otherwise", format!("{x:?} and {z:?}")));
            }
            if (x == y) != same || (x.cmp(&y) == std::cmp::Ordering::Equal) != same || x.cmp(&y) != y.cmp(&x).reverse() || (same && hash_of(&x) != hash_of(&y)) {
                return Err(bad(format!("equal is {same}"), format!("== {} cmp {:?} {:?}", x == y, x.cmp(&y), y.cmp(&x))));
            }
            if Row::of(&x) != a {
                return Err(bad(a.text(), Row::of(&x).text()));
            }
            Ok(())
        })?,
        k => panic!("kind {k}"),
    }
}

pub fn explore15(r: &mut Run) {
    let th = r.thorough;
    let al = ["a", "b", "B", "-", "_", "0", "é", " ", "\0"];
    let mut texts: Vec<String> = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..if th { 3 } else { 2 } {
        level = level.iter().flat_map(|s| al.iter().map(move |c| format!("{s}{c}"))).collect();
        texts.extend(level.iter().cloned());
    }
    texts.extend(["x86_64", "linux", "unknown", "none", "macos", "apple", "\u{10ffff}", "日本", "unwind", "a\nb", "a\"b"].map(String::from));
    for n in [15, 16, 17, 23, 24, 25, 255, 256, 257, 4096] {
        texts.push("l".repeat(n));
        texts.push(format!("{}m", "l".repeat(n - 1)));
    }
    let n = texts.len() as u64;
    r.space("all pairs of texts", n * n, |i, c| {
        let case = format!("text\u{1}{}\u{1}{}", texts[(i / n) as usize], texts[(i % n) as usize]);
        c.case(&case, |st| {
            st.cover.states.insert(i);
            p15(&case, st)
        });
    });
    let vals: Vec<String> = all_values();
    let mut long: Vec<usize> = (1..if th { 80 } else { 40 }).collect();
    long.extend([63, 64, 65, 127, 128, 129, 255, 256, 257]);
    r.space("texts of each length which differ in one place", long.len() as u64, |i, c| {
        let n = long[i as usize];
        for u in 0..UNLIKE.len() {
            for place in 0..=n {
                for other in [n, place, n - 1] {
                    let case = format!("text\u{1}{}\u{1}{}", unlike(n, u, place), unlike(n, u, other));
                    c.case(&case, |st| p15(&case, st));
                }
            }
        }
    });
    r.space("the values of builtin targets", vals.len() as u64, |i, c| {
        for o in &vals {
            if o.len() > 12 && vals[i as usize].len() > 12 && o != &vals[i as usize] {
                continue;
            }
            let case = format!("text\u{1}{}\u{1}{o}", vals[i as usize]);
            c.case(&case, |st| p15(&case, st));
        }
    });
    // words of the sources, with what is close to them
    let m = &crate::mine::LIB;
    let words: BTreeSet<String> = m.words.iter().chain(&m.idents).cloned().collect();
    let words: Vec<String> = words.into_iter().collect();
    r.space("words of the sources", words.len() as u64, |i, c| {
        let w = &words[i as usize];
        let near = [w.clone(), String::new(), format!("{w} "), format!("{w}0"), format!("{w}s"), format!("-{w}"), w.to_uppercase(), w.to_lowercase(), w.replace('-', "_"), w.replace('_', "-"), w.chars().skip(1).collect(), w.chars().rev().collect(), "z".to_owned(), "unknown".to_owned(), "none".to_owned()];
        for a in &near {
            for b in &near {
                let case = format!("text\u{1}{a}\u{1}{b}");
                c.case(&case, |st| p15(&case, st));
            }
        }
        for o in &words {
            let case = format!("families2\u{1}{w}\u{1}{o}\u{1}\u{2}\u{1}{o}\u{1}{w}\u{1}{o}");
            c.case(&case, |st| p15(&case, st));
            if i % 8 == 0 {
                let case = format!("families\u{1}{o}\u{1}{w}\u{1}unix");
                c.case(&case, |st| p15(&case, st));
            }
        }
        for n in &near {
            for k in ["atomic", "endian"] {
                let case = format!("{k}\u{1}{n}");
                c.case(&case, |st| p15(&case, st));
            }
        }
    });
    // all sequences of elements
    let seqs = |el: &[&str], max: usize| -> Vec<String> {
        let mut out = vec![String::new()];
        let mut level = vec![String::new()];
        for _ in 0..max {
            level = level.iter().flat_map(|s| el.iter().map(move |c| format!("{s}\u{1}{c}"))).collect();
            out.extend(level.iter().cloned());
        }
        out
    };
    for (kind, el) in [("families", ["unix", "windows", "wasm", "x", "unixx"]), ("atomics", ["8", "16", "ptr", "128", "65535"])] {
        let s = seqs(&el, if th { 7 } else { 6 });
        r.space(&format!("{kind} from all sequences"), s.len() as u64, |i, c| {
            let case = format!("{kind}{}", s[i as usize]);
            c.case(&case, |st| {
                st.cover.states.insert(i << 8 | 1);
                p15(&case, st)
            });
        });
        let p = seqs(&el[..4], if th { 5 } else { 4 });
        let m = p.len() as u64;
        r.space(&format!("pairs of {kind}"), m * m, |i, c| {
            let case = format!("{kind}2{}\u{1}\u{2}{}", p[(i / m) as usize], p[(i % m) as usize]);
            c.case(&case, |st| p15(&case, st));
        });
    }
    // pairs of subsets, of more elements
    let fam = ["unix", "windows", "wasm", "unixx", "", "x", "a b", "unknown", "é"];
    let ato = ["8", "16", "32", "64", "128", "ptr", "0", "256", "65535"];
    for (kind, el) in [("families", fam), ("atomics", ato)] {
        let el: Vec<&str> = el[..if th { 9 } else { 8 }].to_vec();
        let m = 1u64 << el.len();
        let text = |set: u64, rev: bool| -> String {
            let mut v: Vec<&str> = (0..el.len()).filter(|b| set >> b & 1 == 1).map(|b| el[b]).collect();
            if rev {
                v.reverse();
            }
            v.iter().map(|e| format!("\u{1}{e}")).collect()
        };
        r.space(&format!("subsets of {kind}"), m * m, |i, c| {
            let (a, b) = (i / m, i % m);
            let case = format!("{kind}2{}\u{1}\u{2}{}", text(a, false), text(b, true));
            c.case(&case, |st| p15(&case, st));
            if b == 0 {
                for case in [format!("{kind}{}", text(a, false)), format!("{kind}{}{}", text(a, true), text(a, false))] {
                    c.case(&case, |st| p15(&case, st));
                }
            }
        });
    }
    // long lists in several orders, where sorting works differently
    let top = if th { 300 } else { 130 };
    let counts = crate::mine::LIB.counts(1100);
    r.space("long sets", top + counts.len() as u64, |n, c| {
        let n = if n < top { n as usize } else { counts[(n - top) as usize] };
        for step in [1usize, 7, 31, 61] {
            for rep in [1usize, 2, 3] {
                let idx: Vec<usize> = (0..n * rep).map(|j| (j * step) % n.max(1)).collect();
                let f: String = idx.iter().map(|j| format!("\u{1}f{j:x}")).collect();
                let a: String = idx.iter().map(|j| if *j == 5 { "\u{1}ptr".to_owned() } else { format!("\u{1}{}", j * 200 % 65536) }).collect();
                for case in [format!("families{f}"), format!("atomics{a}")] {
                    c.case(&case, |st| p15(&case, st));
                }
            }
        }
    });
    r.space("atomic sizes", 70_000, |i, c| {
        for t in [format!("{i}"), format!("0{i}"), format!("+{i}"), format!("-{i}"), format!(" {i}"), format!("{i} "), format!("{i}u16"), format!("{i:x}"), format!("0x{i:x}"), format!("{i}.0"), format!("{}", i + (1 << 32)), format!("{}", i + (1 << 16))] {
            let case = format!("atomic\u{1}{t}");
            c.case(&case, |st| p15(&case, st));
        }
    });
    let al = ["0", "1", "8", "9", "+", "-", "p", "t", "r", "P", " ", "_", "٣", "\0", "big", "little"];
    let m = al.len() as u64;
    let depth = if th { 6 } else { 5 };
    r.space("short texts as atomic sizes and endianness", m.pow(depth), |mut i, c| {
        let mut t = String::new();
        for _ in 0..depth {
            t.push_str(al[(i % m) as usize]);
            i /= m;
        }
        // shorter texts come as parts, the space is mostly of those of full length
        for cut in 1..=3usize {
            let Some((at, _)) = t.char_indices().nth_back(cut) else { break };
            if i == 0 && cut < 3 {
                let case = format!("atomic\u{1}{}", &t[at..]);
                c.case(&case, |st| p15(&case, st));
            }
        }
        for k in ["atomic", "endian"] {
            let case = format!("{k}\u{1}{t}");
            c.case(&case, |st| p15(&case, st));
        }
    });
    r.space("one edit away", 4, |i, c| {
        let s = ["ptr", "big", "little", "64"][i as usize];
        let mut all = vec![s.to_owned(), String::new(), s.to_uppercase(), s.repeat(2)];
        edits(s, &mut |t| all.push(t.to_owned()));
        for t in all {
            for k in ["atomic", "endian"] {
                let case = format!("{k}\u{1}{t}");
                c.case(&case, |st| p15(&case, st));
            }
        }
    });
    let g = GOLDEN.len() as u64;
    r.space("pairs of targets", g * g, |i, c| {
        let (a, b) = (&GOLDEN[(i / g) as usize], &GOLDEN[(i % g) as usize]);
        let case = format!("targets\u{1}{}\u{1}{}", a.text(), b.text());
        c.case(&case, |st| p15(&case, st));
        // the same but for one field
        for f in 0..11 {
            let (mut x, b) = (a.clone(), b);
            match f {
                0 => x.os = b.os.clone(),
                1 => x.abi = b.abi.clone(),
                2 => x.arch = b.arch.clone(),
                3 => x.env = b.env.clone(),
                4 => x.vendor = b.vendor.clone(),
                5 => x.families = b.families.clone(),
                6 => x.width = b.width,
                7 => x.endian = b.endian.clone(),
                8 => x.atomics = b.atomics.clone(),
                9 => x.panic = b.panic.clone(),
                _ => x.triple = b.triple.clone(),
            }
            if x != *a {
                let case = format!("targets\u{1}{}\u{1}{}", a.text(), x.text());
                c.case(&case, |st| p15(&case, st));
            }
        }
    });
}
