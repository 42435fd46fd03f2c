//! P21: what an expression says of a target as a whole, from text and triple to the answer. The
//! oracle is the formula of the reference model over the options rustc sets, as texts; the
//! expressions are those which tell targets apart, and the spaces of P07.

use crate::engine::*;
use crate::model::{self, Ast, F, P};
use crate::p_eval;
use crate::p_target::{self as pt, GOLDEN, KINDS, Kind, Row};
use cfg_expr::expr::{Logic, TargetMatcher};
use cfg_expr::targets::*;
use cfg_expr::{Expression, Predicate};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::LazyLock;

// ---- all targets at once --------------------------------------------------------------------

const N: usize = 5;
/// One bit for each target
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Set([u64; N]);

impl Set {
    fn of(f: impl Fn(usize) -> bool) -> Set {
        let mut s = Set([0; N]);
        for i in 0..GOLDEN.len() {
            s.0[i / 64] |= u64::from(f(i)) << (i % 64);
        }
        s
    }
    fn with(self, o: Set, f: impl Fn(u64, u64) -> u64) -> Set {
        let mut s = self;
        for (a, b) in s.0.iter_mut().zip(o.0) {
            *a = f(*a, b);
        }
        s
    }
    fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
}

impl Logic for Set {
    fn top() -> Self {
        Set([!0; N])
    }
    fn bottom() -> Self {
        Set([0; N])
    }
    fn and(self, o: Self) -> Self {
        self.with(o, |a, b| a & b)
    }
    fn or(self, o: Self) -> Self {
        self.with(o, |a, b| a | b)
    }
    fn not(self) -> Self {
        self.with(self, |a, _| !a)
    }
}

/// The options of a target predicate
fn option(p: &P) -> Option<(Kind, String)> {
    Some(match p {
        P::Abi(v) => (Kind::Abi, v.clone()),
        P::Arch(v) => (Kind::Arch, v.clone()),
        P::Endian(big) => (Kind::Endian, if *big { "big" } else { "little" }.into()),
        P::Env(v) => (Kind::Env, v.clone()),
        P::Family(v) => (Kind::Family, v.clone()),
        P::HasAtomic(v) => (Kind::Atomic, v.map_or("ptr".into(), |n| n.to_string())),
        P::Os(v) => (Kind::Os, v.clone()),
        P::Panic(v) => (Kind::Panic, v.clone()),
        P::Width(v) => (Kind::Width, v.to_string()),
        P::Vendor(v) => (Kind::Vendor, v.clone()),
        _ => return None,
    })
}

/// How many predicates have a target for which only this one holds
const ONES: usize = 96;

/// What the user answers for the predicates which are no predicates of the target. For some
/// targets one of them holds, for others all but one, so that each counts, and for the rest half of them
struct Answers {
    index: HashMap<P, usize>,
    /// which predicates are the single ones
    from: usize,
}

impl Answers {
    fn new(ast: &Ast) -> Answers {
        let mut index = HashMap::new();
        for p in &ast.preds {
            if option(p).is_none() {
                let n = index.len();
                index.entry(p.clone()).or_insert(n);
            }
        }
        Answers { index, from: 0 }
    }
    fn of(&self, p: &P) -> Set {
        // others than those of the text are P02 and P09
        let n = self.index.get(p).copied().unwrap_or(usize::MAX);
        let x = (n as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let x = (x ^ x >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        let mut s = Set(std::array::from_fn(|i| match i * 64 / ONES {
            0 => 0,
            1 => !0,
            _ => x ^ x >> (i * 7),
        }));
        // lanes 64 to 95 are of the first, and 128 to 191 of the second kind
        s.0[1] = !0 << (ONES - 64);
        if n >= self.from && n < self.from + ONES {
            for i in [n - self.from, n - self.from + ONES] {
                s.0[i / 64] ^= 1 << (i % 64);
            }
        }
        s
    }
}

/// For which targets a target predicate holds
fn holds(p: &P) -> Option<Set> {
    thread_local! {
        static KNOWN: RefCell<HashMap<P, Set>> = RefCell::new(HashMap::new());
    }
    KNOWN.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(s) = m.get(p) {
            return Some(*s);
        }
        let (k, v) = option(p)?;
        let s = Set::of(|i| GOLDEN[i].sets(k, &v));
        if m.len() > 20_000 {
            m.clear();
        }
        m.insert(p.clone(), s);
        Some(s)
    })
}

// ---- the targets ----------------------------------------------------------------------------

/// The builtin target of each row, and one made by hand
struct Targets {
    builtin: Vec<&'static TargetInfo>,
    made: Vec<TargetInfo>,
    #[cfg(feature = "lex")]
    parsed: Vec<Option<cfg_expr::target_lexicon::Triple>>,
}

static TARGETS: LazyLock<Option<Targets>> = LazyLock::new(|| {
    Some(Targets {
        builtin: GOLDEN.iter().map(|r| get_builtin_target_by_triple(&r.triple)).collect::<Option<_>>()?,
        made: GOLDEN.iter().enumerate().map(|(i, r)| Row { triple: "made-by-hand".into(), ..r.clone() }.build(i % 2 == 0)).collect(),
        #[cfg(feature = "lex")]
        parsed: GOLDEN.iter().map(|r| r.triple.parse().ok()).collect(),
    })
});

/// The value for each target, where the predicate of each text is decided by its text and kind
fn value(ast: &Ast, leaf: impl Fn(&P) -> Set) -> Set {
    ast.fold(
        |l| leaf(&ast.preds[l as usize]),
        |f, v| match f {
            F::All => v.iter().fold(Set::top(), |a, b| a.and(*b)),
            F::Any => v.iter().fold(Set::bottom(), |a, b| a.or(*b)),
            F::Not => Logic::not(v[0]),
        },
    )
}

fn differ(what: &str, want: Set, got: Set, of: Set) -> Res {
    match (0..GOLDEN.len()).find(|i| of.has(*i) && want.has(*i) != got.has(*i)) {
        None => Ok(()),
        Some(i) => Err(bad(format!("{} for {}", want.has(i), GOLDEN[i].triple), format!("{} ({what})", got.has(i)))),
    }
}

pub fn p21(text: &str, st: &mut Stats) -> Res {
    let Ok(ast) = model::parse(model::strip(text), Some(&mut st.cover)) else { return Ok(()) };
    // acceptance is P01
    let Ok(e) = Expression::parse(text) else { return Ok(()) };
    let Some(t) = &*TARGETS else { return Err(bad("a builtin for each target of rustc 1.86.0", "none for some")) };
    let mut user = Answers::new(&ast);
    let leaf = |p: &P| holds(p).unwrap_or_else(|| user.of(p));
    let want = value(&ast, leaf);
    st.traces += 1;
    st.outcome(match (0..GOLDEN.len()).filter(|i| want.has(*i)).count() {
        0 => "for none",
        n if n == GOLDEN.len() => "for all",
        _ => "for some",
    });
    // as users do, one target at a time
    let n = GOLDEN.len();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    text.hash(&mut h);
    let at = h.finish() as usize;
    for k in 0..3 {
        let i = (at / 7 + k * 97) % n;
        let b = get_builtin_target_by_triple(&GOLDEN[i].triple);
        let Some(b) = b else { return Err(bad(format!("a builtin {}", GOLDEN[i].triple), "none")) };
        let got = guarded(|| {
            e.eval(|p| match p {
                Predicate::Target(tp) => tp.matches(b),
                p => user.of(&model::from_impl(p)).has(i),
            })
        })?;
        if got != want.has(i) {
            return Err(bad(format!("{} for {}", want.has(i), GOLDEN[i].triple), format!("{got}")));
        }
        st.cover.transitions += ast.preds.len() as u64;
    }
    if ast.preds.len() > 3000 {
        return Ok(());
    }
    st.cover.transitions += (n * ast.preds.len()) as u64;
    let eval = |user: &Answers, f: &dyn Fn(&cfg_expr::TargetPredicate, usize) -> bool| {
        guarded(|| {
            e.eval(|p| match p {
                Predicate::Target(tp) => Set::of(|i| f(tp, i)),
                p => user.of(&model::from_impl(p)),
            })
        })
    };
    let got = eval(&user, &|tp, i| tp.matches(t.builtin[i]))?;
    differ("the builtin", want, got, Set::top())?;
    let got = eval(&user, &|tp, i| t.made[i].matches(tp))?;
    differ("made by hand", want, got, Set::top())?;
    #[cfg(feature = "lex")]
    {
        // these are never true for parsed triples
        let parsed = |p: &P| match p {
            P::Abi(_) | P::HasAtomic(_) | P::Panic(_) => Set::bottom(),
            p => leaf(p),
        };
        let got = eval(&user, &|tp, i| t.parsed[i].as_ref().is_some_and(|l| tp.matches(l)))?;
        differ("the parsed triple", value(&ast, parsed), got, Set::of(|i| t.parsed[i].is_some()))?;
    }
    // the other predicates, in long texts
    for k in 1..user.index.len().div_ceil(ONES).min(12) {
        user.from = k * ONES;
        let want = value(&ast, |p| holds(p).unwrap_or_else(|| user.of(p)));
        let got = eval(&user, &|tp, i| tp.matches(t.builtin[i]))?;
        differ("the builtin", want, got, Set::top())?;
    }
    Ok(())
}

// ---- exploration ----------------------------------------------------------------------------

/// Expressions as they are found in manifests
const FOUND: &[&str] = &[
    "cfg(unix)", "cfg(windows)", "cfg(not(windows))", "cfg(any(unix, windows))", "cfg(not(any(unix, windows)))",
    r#"cfg(any(target_os = "macos", target_os = "ios", target_os = "tvos", target_os = "watchos", target_os = "visionos"))"#,
    r#"cfg(all(unix, not(target_os = "macos")))"#,
    r#"cfg(all(target_arch = "wasm32", target_os = "unknown"))"#,
    r#"cfg(all(any(target_arch = "wasm32", target_arch = "wasm64"), target_os = "unknown"))"#,
    r#"cfg(all(target_family = "wasm", not(target_os = "wasi")))"#,
    r#"cfg(any(target_arch = "x86", target_arch = "x86_64", target_arch = "aarch64"))"#,
    r#"cfg(all(target_arch = "aarch64", any(target_os = "linux", target_os = "android", target_vendor = "apple")))"#,
    r#"cfg(all(target_arch = "x86_64", target_env = "gnu", not(target_abi = "llvm"), not(windows_raw_dylib)))"#,
    r#"cfg(all(any(target_arch = "x86_64", target_arch = "arm64ec"), target_env = "msvc", not(windows_raw_dylib)))"#,
    r#"cfg(all(target_arch = "x86", target_env = "gnu", not(target_abi = "llvm"), not(windows_raw_dylib)))"#,
    r#"cfg(all(not(rustix_use_libc), not(miri), target_os = "linux", target_endian = "little", any(target_arch = "arm", all(target_arch = "aarch64", target_pointer_width = "64"), target_arch = "riscv64", all(rustix_use_experimental_asm, target_arch = "powerpc64"), all(rustix_use_experimental_asm, target_arch = "mips"), target_arch = "x86", all(target_arch = "x86_64", target_pointer_width = "64"))))"#,
    r#"cfg(any(rustix_use_libc, miri, not(all(target_os = "linux", target_endian = "little", any(target_arch = "arm", all(target_arch = "aarch64", target_pointer_width = "64"), target_arch = "x86")))))"#,
    r#"cfg(any(target_os = "linux", target_os = "android", target_os = "freebsd", target_os = "dragonfly", target_os = "openbsd", target_os = "netbsd", target_os = "solaris", target_os = "illumos"))"#,
    r#"cfg(all(not(target_has_atomic = "64"), target_has_atomic = "ptr"))"#,
    r#"cfg(not(target_has_atomic = "ptr"))"#,
    r#"cfg(any(all(target_has_atomic = "8", target_has_atomic = "16"), target_pointer_width = "16"))"#,
    r#"cfg(all(unix, target_env = "musl", target_pointer_width = "32"))"#,
    r#"cfg(all(target_os = "linux", any(target_env = "", target_env = "gnu", target_env = "musl", target_env = "uclibc", target_env = "ohos")))"#,
    r#"cfg(all(panic = "abort", not(target_os = "none")))"#,
    r#"cfg(all(target_vendor = "fortanix", target_env = "sgx"))"#,
    r#"cfg(not(any(target_vendor = "apple", target_vendor = "pc", target_vendor = "unknown", target_vendor = "uwp")))"#,
    r#"cfg(all(target_endian = "big", any(target_pointer_width = "32", target_pointer_width = "64"), not(target_family = "unix")))"#,
    r#"cfg(all(target_os = "windows", target_env = "msvc", target_vendor = "uwp"))"#,
    r#"cfg(any(target_os = "none", target_os = "uefi", target_os = "cuda", target_os = "unknown"))"#,
    r#"cfg(all(debug_assertions, not(test), any(unix, feature = "std")))"#,
    r#"all(feature = "std", not(proc_macro), target_feature = "sse2", any(unix))"#,
    r#"cfg(tracing_unstable)"#, r#"cfg(target_os = "none")"#, r#"cfg(target_abi = "")"#, r#"cfg(target_env = "")"#,
];

/// All options which targets set
fn options() -> Vec<(Kind, String)> {
    let mut s: BTreeSet<(Kind, String)> = BTreeSet::new();
    for r in GOLDEN.iter() {
        s.extend(of(r));
    }
    s.into_iter().collect()
}

/// The options of a target
fn of(r: &Row) -> Vec<(Kind, String)> {
    let mut v = vec![
        (Kind::Os, r.os.clone().unwrap_or("none".into())), (Kind::Abi, r.abi.clone().unwrap_or_default()), (Kind::Arch, r.arch.clone()),
        (Kind::Env, r.env.clone().unwrap_or_default()), (Kind::Vendor, r.vendor.clone().unwrap_or("unknown".into())),
        (Kind::Width, r.width.to_string()), (Kind::Endian, r.endian.clone()), (Kind::Panic, r.panic.clone()),
    ];
    v.extend(r.families.iter().map(|f| (Kind::Family, f.clone())));
    v.extend(r.atomics.iter().map(|f| (Kind::Atomic, f.clone())));
    v
}

fn cfg((k, v): &(Kind, String)) -> String {
    format!("{} = \"{v}\"", k.key())
}

pub fn explore21(r: &mut Run) {
    r.space("expressions found in manifests", FOUND.len() as u64, |i, c| {
        let t = FOUND[i as usize];
        c.case(t, |st| p21(t, st));
        let u = format!("not({})", model::strip(t));
        c.case(&u, |st| p21(&u, st));
        for o in FOUND {
            for f in ["all", "any"] {
                let u = format!("{f}({}, not({}),)", model::strip(t), model::strip(o));
                c.case(&u, |st| p21(&u, st));
            }
        }
    });
    // expressions which tell targets apart
    let opts = options();
    r.space("what tells each target from others", GOLDEN.len() as u64, |i, c| {
        let o = of(&GOLDEN[i as usize]);
        let all: Vec<String> = o.iter().map(cfg).collect();
        let mut go = |t: String| c.case(&t, |st| p21(&t, st));
        go(format!("all({})", all.join(", ")));
        go(format!("not(any({}))", all.join(", ")));
        go(format!("any({})", all.iter().map(|x| format!("not({x})")).collect::<Vec<_>>().join(",")));
        // nested, from either side
        for rev in [false, true] {
            let mut t = String::from("all()");
            for k in 0..all.len() {
                let x = &all[if rev { all.len() - 1 - k } else { k }];
                t = if k % 2 == 0 { format!("all({x}, {t})") } else { format!("not(any(not({t}), not({x})))") };
            }
            go(t);
        }
        // with one option changed, absent, or negated
        for k in 0..o.len() {
            for other in opts.iter().filter(|x| x.0 == o[k].0) {
                let mut v = all.clone();
                v[k] = cfg(other);
                go(format!("all({})", v.join(",")));
            }
            let mut v = all.clone();
            v[k] = format!("not({})", all[k]);
            go(format!("all({})", v.join(" , ")));
            v.remove(k);
            go(format!("cfg(all({}))", v.join(",\n")));
        }
    });
    let n = opts.len() as u64;
    r.space("pairs of options which targets set", n * n, |i, c| {
        let (a, b) = (cfg(&opts[(i / n) as usize]), cfg(&opts[(i % n) as usize]));
        for t in [format!("all({a}, {b})"), format!("any({a}, not({b}))"), format!("not(all(not({a}), any({b}, unix)))")] {
            c.case(&t, |st| p21(&t, st));
        }
    });
    // lists of the values of a key, in which each matters
    let m = 40u64;
    r.space("lists of values of a key", KINDS.len() as u64 * m, |i, c| {
        let (k, w) = (KINDS[(i / m) as usize], (i % m) as usize + 1);
        let vals: Vec<String> = opts.iter().filter(|o| o.0 == k).map(cfg).collect();
        for from in 0..vals.len() {
            let l: Vec<&str> = (0..w).map(|j| &vals[(from + j) % vals.len()][..]).collect();
            let l = l.join(", ");
            for t in [format!("any({l})"), format!("not(any({l}))"), format!("all(unix, any({l}), not(windows))")] {
                c.case(&t, |st| p21(&t, st));
            }
            let t = format!("all(not({}))", l.replace(", ", "), not("));
            c.case(&t, |st| p21(&t, st));
        }
    });
    let values = pt::similar_values();
    r.space("target predicates with any value", values.len() as u64, |i, c| {
        for k in KINDS {
            let o = (k, values[i as usize].clone());
            for t in [cfg(&o), format!("any(not({}), target_os = \"linux\")", cfg(&o))] {
                c.case(&t, |st| p21(&t, st));
            }
        }
    });
    // some, in all small formulas
    let few = [
        "unix", "windows", "target_os = \"linux\"", "target_os = \"none\"", "target_os = \"windows\"", "target_env = \"\"", "target_env = \"gnu\"", "target_abi = \"\"",
        "target_abi = \"eabihf\"", "target_arch = \"x86_64\"", "target_arch = \"arm\"", "target_vendor = \"unknown\"", "target_vendor = \"apple\"", "target_family = \"wasm\"",
        "target_pointer_width = \"32\"", "target_endian = \"big\"", "target_has_atomic = \"64\"", "target_has_atomic = \"ptr\"", "panic = \"abort\"", "feature = \"linux\"", "unix_like",
        "target_feature = \"sse2\"", "test", "os = \"linux\"",
    ];
    let n = few.len() as u64;
    r.space("formulas of three predicates", n * n * n, |i, c| {
        let p = |k: u32| few[(i / n.pow(k) % n) as usize];
        let (x, y, z) = (p(0), p(1), p(2));
        for t in [
            format!("all({x}, {y}, {z})"), format!("any({x}, {y}, {z})"), format!("all({x}, any({y}, {z}))"), format!("any({x}, all({y}, {z}))"),
            format!("all(any({x}, {y}), not({z}))"), format!("any(all({x}, {y}), not({z}))"), format!("not(all({x}, any({y}, not({z}))))"),
            format!("any(all({x}, not({y})), all({y}, {z}))"),
        ] {
            c.case(&t, |st| p21(&t, st));
        }
    });
    p_eval::all(r, if r.thorough { 9 } else { 8 }, p21);
}

pub fn test21(text: &str) -> String {
    format!("let e = cfg_expr::Expression::parse({text:?}).unwrap();\n    for t in cfg_expr::targets::ALL_BUILTINS {{\n        println!(\"{{}} {{}}\", t.triple, e.eval(|p| match p {{ cfg_expr::Predicate::Target(tp) => tp.matches(t), _ => false }}));\n    }}")
}
