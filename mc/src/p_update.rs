//! P18 and P19: the tool which regenerates the list of builtin targets. It runs as it is, in a
//! scratch copy of the repository, against a compiler which answers as each case says (this
//! binary, under the name of rustc), and the list it writes is compiled in place and read back.

use crate::engine::*;
use crate::json::{self, J};
use crate::p_target::{GOLDEN, Row};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{LazyLock, Mutex};
use std::time::{Duration, Instant};

const REPO: &str = "/repo";

// ---- cases --------------------------------------------------------------------------------

/// How a call of the compiler ends. Outputs are bytes, as the characters U+00 to U+FF.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Answer {
    out: String,
    err: String,
    code: i32,
    signal: i32,
}

/// What a compiler answers: to --version, --print target-list, and each target
#[derive(Clone, Debug, Default)]
struct Compiler {
    version: String,
    targets: Vec<(String, String)>,
    /// instead, for the call "version", "target-list" or a target
    faults: BTreeMap<String, Answer>,
}

#[derive(Clone, Debug, Default)]
struct Step {
    compiler: Compiler,
    /// RUSTC, PATH or absent
    via: String,
    /// real, fake, absent, exit, signal
    rustfmt: String,
    /// what happens to the files before this step: "" or one of the kinds below
    disturb: String,
    /// README, if not as it is
    readme: Option<String>,
    /// in which order the README is read: "" as it comes, or after / before all of the calls
    order: String,
}

#[derive(Clone, Debug, Default)]
struct Case {
    steps: Vec<Step>,
    /// whether to compile the list after the last step, and with the feature targets
    compile: bool,
    lex: bool,
}

fn bytes(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

fn latin(b: &[u8]) -> String {
    b.iter().map(|b| *b as char).collect()
}

impl Case {
    fn text(&self) -> String {
        let q = json::s;
        let mut o = format!("{{\"compile\":{},\"lex\":{},\"steps\":[", self.compile, self.lex);
        for (i, s) in self.steps.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&format!("{{\"version\":{},\"via\":{},\"rustfmt\":{},\"disturb\":{},\"order\":{}", q(&s.compiler.version), q(&s.via), q(&s.rustfmt), q(&s.disturb), q(&s.order)));
            if let Some(r) = &s.readme {
                o.push_str(&format!(",\"readme\":{}", q(r)));
            }
            o.push_str(",\"faults\":[");
            for (j, (k, a)) in s.compiler.faults.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                o.push_str(&format!("[{},{},{},{},{}]", q(k), q(&a.out), q(&a.err), a.code, a.signal));
            }
            o.push_str("],\"targets\":[");
            for (j, (t, c)) in s.compiler.targets.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                o.push_str(&format!("[{},{}]", q(t), q(c)));
            }
            o.push_str("]}");
        }
        o.push_str("]}");
        o
    }
    fn parse(t: &str) -> Case {
        let j = json::parse(t).expect("case");
        let b = |j: &J| matches!(j, J::Bool(true));
        Case {
            compile: b(j.get("compile")),
            lex: b(j.get("lex")),
            steps: j.get("steps").arr().iter().map(|s| Step {
                compiler: Compiler {
                    version: s.get("version").str().into(),
                    targets: s.get("targets").arr().iter().map(|p| (p.arr()[0].str().to_owned(), p.arr()[1].str().to_owned())).collect(),
                    faults: s.get("faults").arr().iter().map(|p| {
                        let a = p.arr();
                        (a[0].str().to_owned(), Answer { out: a[1].str().into(), err: a[2].str().into(), code: a[3].num() as i32, signal: a[4].num() as i32 })
                    }).collect(),
                },
                via: s.get("via").str().into(),
                rustfmt: s.get("rustfmt").str().into(),
                disturb: s.get("disturb").str().into(),
                order: s.get("order").str().into(),
                readme: match s.get("readme") {
                    J::Str(r) => Some(r.clone()),
                    _ => None,
                },
            }).collect(),
        }
    }
}

// ---- reference ----------------------------------------------------------------------------

/// What the properties say an update with this compiler results in: the version and the
/// entries, or a failure
fn reference(c: &Compiler) -> Result<(String, Vec<Row>), String> {
    let call = |k: &str, normal: &str| -> Result<String, String> {
        match c.faults.get(k) {
            None => Ok(normal.to_owned()),
            Some(a) if a.code != 0 || a.signal != 0 => Err(format!("{k} fails")),
            Some(a) => String::from_utf8(bytes(&a.out)).map_err(|_| format!("{k} is not UTF-8")),
        }
    };
    let version = call("version", &c.version)?;
    let version = version.split_whitespace().nth(1).ok_or("no version")?.to_owned();
    let list = call("target-list", &c.targets.iter().map(|t| format!("{}\n", t.0)).collect::<String>())?;
    let cfgs: HashMap<&str, &str> = c.targets.iter().map(|(a, b)| (&a[..], &b[..])).collect();
    let mut rows = Vec::new();
    for t in list.lines() {
        let cfg = call(t, cfgs.get(t).ok_or(format!("{t} is not known"))?)?;
        let mut r = Row { triple: t.to_owned(), ..Row::default() };
        let (mut arch, mut endian, mut width, mut panic) = (None, None, None, None);
        let mut atomics = BTreeSet::new();
        let mut families = BTreeSet::new();
        for l in cfg.lines() {
            let Some((k, v)) = l.split_once('=') else { continue };
            let v = v.strip_prefix('"').and_then(|v| v.strip_suffix('"')).ok_or(format!("{l} is not quoted"))?.to_owned();
            let given = |absent: &str| (v != absent).then(|| v.clone());
            match k {
                "target_arch" => arch = Some(v),
                "target_endian" => endian = Some(v),
                "target_pointer_width" => width = Some(v),
                "panic" => panic = Some(v),
                "target_abi" => r.abi = given(""),
                "target_env" => r.env = given(""),
                "target_vendor" => r.vendor = given(""),
                "target_os" => r.os = given("none"),
                "target_family" => {
                    families.insert(v);
                }
                "target_has_atomic" => {
                    let n = if v == "ptr" { u32::MAX } else { v.parse::<u16>().map_err(|_| format!("{l} is no size"))? as u32 };
                    atomics.insert((n, v));
                }
                "target_feature" | "relocation_model" | "target_has_atomic_equal_alignment" | "target_has_atomic_load_store" | "fmt_debug" => {}
                _ => return Err(format!("{k} is not known")),
            }
        }
        r.arch = arch.ok_or("no arch")?;
        r.endian = endian.ok_or("no endian")?;
        r.width = width.ok_or("no width")?.parse().map_err(|_| "width")?;
        r.panic = panic.ok_or("no panic")?;
        r.families = families.into_iter().collect();
        r.atomics = atomics.into_iter().map(|x| x.1).collect();
        rows.push(r);
    }
    Ok((version, rows))
}

fn readme_reference(readme: &[u8], version: &str) -> Result<String, String> {
    let r = std::str::from_utf8(readme).map_err(|_| "the README is not UTF-8")?;
    let end = r.rfind("]:").ok_or("no version in the README")?;
    let start = r[..end].rfind('[').ok_or("no version in the README")?;
    Ok(r.split(&r[start + 1..end]).collect::<Vec<_>>().join(version))
}

// ---- the fake compiler and formatter --------------------------------------------------------

/// If this binary was called as one of the stand-ins, acts as it
pub fn stand_in() {
    let mut args = std::env::args();
    let me = args.next().unwrap_or_default();
    let name = Path::new(&me).file_name().and_then(|n| n.to_str()).unwrap_or("");
    if name != "rustc" && name != "rustfmt" {
        return;
    }
    let dir = std::env::var("MC_FAKE").expect("MC_FAKE");
    let args: Vec<String> = args.collect();
    let key = if name == "rustfmt" { "rustfmt".to_owned() } else { call_of(&args) };
    {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(format!("{dir}/calls")).expect("calls");
        let _ = f.write_all(format!("{key}\n").as_bytes());
    }
    let Ok(b) = std::fs::read(format!("{dir}/ans/{key}")) else {
        eprintln!("error: no answer for {args:?}");
        std::process::exit(1);
    };
    let nl = b.iter().position(|c| *c == b'\n').expect("answer");
    let head = String::from_utf8_lossy(&b[..nl]).into_owned();
    let h: Vec<usize> = head.split(' ').map(|x| x.parse().expect("answer")).collect();
    use std::io::Write;
    let rest = &b[nl + 1..];
    let _ = std::io::stdout().write_all(&rest[..h[2]]);
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().write_all(&rest[h[2]..]);
    if h[1] != 0 {
        unsafe extern "C" {
            fn kill(pid: i32, sig: i32) -> i32;
        }
        unsafe { kill(std::process::id() as i32, h[1] as i32) };
        std::thread::sleep(Duration::from_secs(5));
    }
    std::process::exit(h[0] as i32);
}

fn call_of(args: &[String]) -> String {
    let mut target = None;
    let mut print = None;
    let mut version = false;
    let mut i = 0;
    while i < args.len() {
        let a = &args[i][..];
        match a {
            "--version" | "-V" => version = true,
            "--target" => {
                target = args.get(i + 1).cloned();
                i += 1;
            }
            "--print" => {
                print = args.get(i + 1).cloned();
                i += 1;
            }
            _ => {
                if let Some(t) = a.strip_prefix("--target=") {
                    target = Some(t.to_owned());
                } else if let Some(p) = a.strip_prefix("--print=") {
                    print = Some(p.to_owned());
                } else if !a.starts_with('+') {
                    return "unknown".into();
                }
            }
        }
        i += 1;
    }
    match (version, print.as_deref(), target) {
        (true, _, _) => "version".into(),
        (_, Some("target-list"), _) => "target-list".into(),
        (_, Some("cfg"), Some(t)) => format!("t.{t}"),
        _ => "unknown".into(),
    }
}

// ---- running the tool -----------------------------------------------------------------------

fn build_dir() -> PathBuf {
    // build/<profile dir>/<profile>/mc
    std::env::current_exe().expect("exe").ancestors().nth(3).expect("build").to_owned()
}

struct Scratch {
    dir: PathBuf,
    ready: Cell<bool>,
}

fn copy_tree(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).expect("dir");
    for e in std::fs::read_dir(a).expect("dir").flatten() {
        let t = e.file_type().expect("type");
        let to = b.join(e.file_name());
        if t.is_dir() {
            copy_tree(&e.path(), &to);
        } else if t.is_file() {
            std::fs::write(&to, std::fs::read(e.path()).expect("file")).expect("copy");
        }
    }
}

impl Scratch {
    fn mine() -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        thread_local! {
            static DIR: PathBuf = {
                let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                build_dir().join(format!("upd/{}-{n}", std::process::id()))
            };
        }
        let dir = DIR.with(|d| d.clone());
        let s = Scratch { ready: Cell::new(dir.exists()), dir };
        s.prepare();
        s
    }
    fn ws(&self) -> PathBuf {
        self.dir.join("ws")
    }
    fn list(&self) -> PathBuf {
        self.dir.join("ws/src/targets/builtins.rs")
    }
    fn readme(&self) -> PathBuf {
        self.dir.join("ws/README.md")
    }
    fn prepare(&self) {
        if self.ready.get() {
            return;
        }
        std::fs::create_dir_all(self.dir.join("bin")).expect("bin");
        std::fs::create_dir_all(self.dir.join("dump/src")).expect("dump");
        let me = std::env::current_exe().expect("exe");
        let _ = std::os::unix::fs::symlink(&me, self.dir.join("bin/rustc"));
        // another compiler, which is not the one to use
        std::fs::create_dir_all(self.dir.join("other")).expect("other");
        std::fs::write(self.dir.join("other/rustc"), "#!/bin/sh\necho 'rustc 1.0.0 (other)'\n").expect("other");
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(self.dir.join("other/rustc"), std::fs::Permissions::from_mode(0o755)).expect("other");
        std::fs::write(
            self.dir.join("dump/Cargo.toml"),
            "[package]\nname = \"dump\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[workspace]\n[features]\nlex = [\"cfg-expr/targets\"]\n[dependencies]\ncfg-expr = { path = \"../ws\" }\n[profile.dev]\ndebug = 0\nincremental = false\n",
        ).expect("dump");
        self.ready.set(true);
    }
    /// A fresh copy of what the tool works on
    fn reset(&self) {
        let ws = self.ws();
        remove(&ws);
        copy_tree(&Path::new(REPO).join("src"), &ws.join("src"));
        for f in ["README.md", "Cargo.toml"] {
            std::fs::copy(Path::new(REPO).join(f), ws.join(f)).expect("copy");
        }
    }
    fn answers(&self, c: &Compiler, rustfmt: &str) {
        let a = self.dir.join("ans");
        remove(&a);
        remove(&self.dir.join("calls"));
        std::fs::create_dir_all(&a).expect("ans");
        let put = |k: &str, x: &Answer| {
            let o = bytes(&x.out);
            let mut b = format!("{} {} {}\n", x.code, x.signal, o.len()).into_bytes();
            b.extend(o);
            b.extend(bytes(&x.err));
            std::fs::write(a.join(k), b).expect("answer");
        };
        let ok = |out: String| Answer { out, ..Answer::default() };
        put("version", &ok(c.version.clone()));
        put("target-list", &ok(c.targets.iter().map(|t| format!("{}\n", t.0)).collect()));
        for (t, o) in &c.targets {
            put(&format!("t.{t}"), &ok(o.clone()));
        }
        for (k, f) in &c.faults {
            match &k[..] {
                "version" | "target-list" => put(k, f),
                t => put(&format!("t.{t}"), f),
            }
        }
        let fmt = self.dir.join("bin/rustfmt");
        let _ = std::fs::remove_file(&fmt);
        let x = match rustfmt {
            "fake" => Answer::default(),
            "exit" => Answer { code: 1, err: "cannot format".into(), ..Answer::default() },
            "signal" => Answer { signal: 9, ..Answer::default() },
            _ => return,
        };
        put("rustfmt", &x);
        std::os::unix::fs::symlink(std::env::current_exe().expect("exe"), fmt).expect("link");
    }
    fn tree(&self) -> BTreeMap<PathBuf, Vec<u8>> {
        fn walk(d: &Path, m: &mut BTreeMap<PathBuf, Vec<u8>>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                match e.file_type() {
                    Ok(t) if t.is_dir() => {
                        m.insert(p.clone(), vec![]);
                        walk(&p, m)
                    }
                    Ok(t) if t.is_file() => {
                        m.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
                    }
                    _ => {
                        m.insert(p, b"other".to_vec());
                    }
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.ws(), &mut m);
        m
    }
    fn calls(&self) -> Vec<String> {
        std::fs::read_to_string(self.dir.join("calls")).unwrap_or_default().lines().map(str::to_owned).collect()
    }
    /// Runs the tool: how it ended
    fn update(&self, s: &Step) -> Result<std::process::ExitStatus, Bad> {
        let exe = build_dir().join("update/debug/update");
        let mut c = Command::new(&exe);
        let bin = self.dir.join("bin");
        let path = std::env::var("PATH").unwrap_or_default();
        c.env("MC_FAKE", &self.dir).env_remove("RUSTC");
        // rustfmt is there unless it is to be absent
        c.env("PATH", match &s.rustfmt[..] {
            "absent" => bin.display().to_string(),
            _ if s.via == "OTHER" => format!("{}:{}:{path}", self.dir.join("other").display(), bin.display()),
            _ => format!("{}:{path}", bin.display()),
        });
        match &s.via[..] {
            "PATH" => {}
            "absent" => {
                c.env("RUSTC", self.dir.join("bin/no-such-rustc"));
            }
            _ => {
                c.env("RUSTC", bin.join("rustc"));
            }
        }
        c.current_dir(self.ws()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).process_group(0);
        let mut ch = c.spawn().expect("the update tool");
        let t0 = Instant::now();
        let calls_end = |c: &Compiler| c.targets.len() + 2;
        loop {
            if !s.order.is_empty() {
                // the README is a pipe: the tool waits for its text (each time it reads it)
                let n = self.calls().len();
                let failed = self.calls().iter().any(|k| s.compiler.faults.contains_key(k.strip_prefix("t.").unwrap_or(k)));
                if s.order == "before" || n >= calls_end(&s.compiler) || failed && t0.elapsed() > Duration::from_millis(40)
                    || t0.elapsed() > Duration::from_millis(500)
                {
                    use std::os::unix::fs::OpenOptionsExt;
                    let f = std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(self.readme());
                    if let Ok(mut f) = f {
                        use std::io::Write;
                        let _ = f.write_all(&bytes(s.readme.as_deref().unwrap_or("")));
                    }
                }
            }
            match ch.try_wait().expect("wait") {
                Some(st) => return Ok(st),
                None if t0.elapsed() > Duration::from_secs(20 + s.compiler.targets.len() as u64 / 20) => {
                    unsafe extern "C" {
                        fn kill(pid: i32, sig: i32) -> i32;
                    }
                    unsafe { kill(-(ch.id() as i32), 9) };
                    let _ = ch.wait();
                    return Err(bad("the update ends", "it does not"));
                }
                None => std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 20 { 200 } else { 2000 })),
            }
        }
    }
    /// Compiles the list in place, and reads it back
    fn entries(&self, rows: &[Row], lex: bool) -> Result<Vec<String>, Bad> {
        std::fs::write(self.dir.join("dump/src/main.rs"), dumper(rows)).expect("dump");
        let mut c = Command::new("cargo");
        c.args(["build", "-q", "--offline", "--manifest-path"]).arg(self.dir.join("dump/Cargo.toml"))
            .arg("--target-dir").arg(self.dir.join("target"));
        if lex {
            c.args(["--features", "lex"]);
        }
        let o = c.env_remove("RUSTC").output().expect("cargo");
        if !o.status.success() {
            let e = String::from_utf8_lossy(&o.stderr);
            let first: Vec<&str> = e.lines().filter(|l| !l.starts_with("warning")).skip_while(|l| !l.starts_with("error")).take(8).collect();
            return Err(bad("the new list compiles, with a constant for each value", first.join("\n")));
        }
        let o = Command::new(self.dir.join("target/debug/dump")).output().expect("dump");
        if !o.status.success() {
            return Err(bad("the new list can be read", String::from_utf8_lossy(&o.stderr).into_owned()));
        }
        Ok(String::from_utf8_lossy(&o.stdout).lines().map(str::to_owned).collect())
    }
}

fn remove(p: &Path) {
    // only ever below the scratch directory
    assert!(p.starts_with(build_dir().join("upd")), "{}", p.display());
    match std::fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => std::fs::remove_dir_all(p).expect("remove"),
        Ok(_) => std::fs::remove_file(p).expect("remove"),
        Err(_) => {}
    }
}

/// A program which prints the entries, and what the constants are
fn dumper(rows: &[Row]) -> String {
    let mut o = String::from(
        r#"use cfg_expr::targets::*;
fn row(t: &TargetInfo) -> String {
    fn o(s: Option<&str>) -> String { s.unwrap_or("~").to_owned() }
    fn at(a: &HasAtomic) -> String { match a { HasAtomic::IntegerSize(n) => n.to_string(), HasAtomic::Pointer => "ptr".to_owned(), #[allow(unreachable_patterns)] _ => "?".to_owned() } }
    format!("{}|{}|{}|{}|{}|{}|{{{}}}|{}|{}|{{{}}}|{}",
        t.triple.as_str(), o(t.os.as_ref().map(|x| x.as_str())), o(t.abi.as_ref().map(|x| x.as_str())), t.arch.as_str(),
        o(t.env.as_ref().map(|x| x.as_str())), o(t.vendor.as_ref().map(|x| x.as_str())),
        t.families.iter().map(|f| f.as_str()).collect::<Vec<_>>().join(", "), t.pointer_width,
        if t.endian == Endian::big { "big" } else { "little" },
        t.has_atomics.iter().map(at).collect::<Vec<_>>().join(", "), t.panic.as_str())
}
fn c(kind: &str, name: &str, is: &str) { println!("{kind} {name} {is}"); }
fn at(h: &HasAtomics) -> String { h.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(" ") }
fn fam(h: &Families) -> String { h.iter().map(|a| a.as_str()).collect::<Vec<_>>().join(" ") }
fn main() {
    println!("version {}", rustc_version());
    for t in ALL_BUILTINS { println!("{}", row(t)); }
"#,
    );
    for (kind, name, v) in constants(rows) {
        match &kind[..] {
            "Families" => o.push_str(&format!("    c(\"{kind}\", {}, &fam(&{kind}::{name}));\n", json::s(&v))),
            "HasAtomics" => o.push_str(&format!("    c(\"{kind}\", {}, &at(&{kind}::{name}));\n", json::s(&v))),
            _ => o.push_str(&format!("    c(\"{kind}\", {}, {kind}::{name}.as_str());\n", json::s(&v))),
        }
    }
    o.push_str("}\n");
    o
}

/// Type, name and value of the constants a list of these entries has
fn constants(rows: &[Row]) -> BTreeSet<(String, String, String)> {
    let mut o = BTreeSet::new();
    for r in rows {
        let mut one = |k: &str, v: Option<&str>| {
            if let Some(v) = v {
                o.insert((k.to_owned(), v.replace('-', "_"), v.to_owned()));
            }
        };
        one("Os", r.os.as_deref());
        one("Abi", r.abi.as_deref());
        one("Arch", Some(&r.arch));
        one("Env", r.env.as_deref());
        one("Vendor", r.vendor.as_deref());
        one("Panic", Some(&r.panic));
        for f in &r.families {
            one("Family", Some(f));
        }
        if !r.families.is_empty() {
            o.insert(("Families".into(), r.families.join("_").replace('-', "_"), r.families.join(" ")));
        }
        if !r.atomics.is_empty() {
            o.insert(("HasAtomics".into(), format!("atomic_{}", r.atomics.join("_")), r.atomics.join(" ")));
        }
    }
    o
}

fn expected_dump(version: &str, rows: &[Row]) -> Vec<String> {
    let mut o = vec![format!("version {version}")];
    o.extend(rows.iter().map(Row::text));
    o.extend(constants(rows).into_iter().map(|(k, _, v)| format!("{k} {v} {v}")));
    o
}

// ---- the check ------------------------------------------------------------------------------

fn show(s: &[u8]) -> String {
    let t = String::from_utf8_lossy(s);
    if t.len() > 2000 { format!("{} bytes", t.len()) } else { t.into_owned() }
}

fn hash(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn disturb(sc: &Scratch, kind: &str) {
    let l = sc.list();
    match kind {
        "" => {}
        "no list" => remove(&l),
        "empty list" => std::fs::write(l, "").expect("list"),
        "garbage list" => std::fs::write(l, b"pub const \xff\x00 {{{ ALL_BUILTINS").expect("list"),
        "long list" => {
            let mut b = std::fs::read(&l).unwrap_or_default();
            for _ in 0..3 {
                b.extend_from_within(..);
            }
            b.resize(b.len().max(2 << 20), b'/');
            std::fs::write(l, b).expect("list");
        }
        "no directory" => remove(l.parent().unwrap()),
        "list is a directory" => {
            remove(&l);
            std::fs::create_dir(&l).expect("dir");
        }
        "no README" => remove(&sc.readme()),
        "README is a directory" => {
            remove(&sc.readme());
            std::fs::create_dir(sc.readme()).expect("dir");
        }
        k => panic!("disturb {k}"),
    }
}

/// The list and README that an update of the original files with this compiler gives
fn fresh(s: &Step) -> Result<(Vec<u8>, Vec<u8>), Bad> {
    static CACHE: LazyLock<Mutex<HashMap<u64, (Vec<u8>, Vec<u8>)>>> = LazyLock::new(Default::default);
    let key = hash((format!("{:?}", s.compiler), &s.rustfmt));
    if let Some(x) = CACHE.lock().unwrap().get(&key) {
        return Ok(x.clone());
    }
    // in a scratch directory of its own, as the caller is using the other one
    let sc = std::thread::scope(|t| {
        t.spawn(|| -> Result<(Vec<u8>, Vec<u8>), Bad> {
            let sc = Scratch::mine();
            sc.reset();
            sc.answers(&s.compiler, &s.rustfmt);
            let st = sc.update(&Step { order: String::new(), readme: None, disturb: String::new(), ..s.clone() })?;
            if !st.success() {
                return Err(bad("a successful update", format!("{st}")));
            }
            let r = (std::fs::read(sc.list()).unwrap_or_default(), std::fs::read(sc.readme()).unwrap_or_default());
            remove(&sc.dir);
            Ok(r)
        }).join().expect("fresh")
    })?;
    CACHE.lock().unwrap().insert(key, sc.clone());
    Ok(sc)
}

fn check(c: &Case, st: &mut Stats) -> Res {
    let sc = Scratch::mine();
    sc.reset();
    let mut last: Option<(String, Vec<Row>)> = None;
    for (i, s) in c.steps.iter().enumerate() {
        let at = format!("update {} of {}", i + 1, c.steps.len());
        disturb(&sc, &s.disturb);
        if let Some(r) = &s.readme {
            if s.order.is_empty() {
                std::fs::write(sc.readme(), bytes(r)).expect("README");
            } else {
                remove(&sc.readme());
                let p = std::ffi::CString::new(sc.readme().to_str().unwrap()).unwrap();
                unsafe extern "C" {
                    fn mkfifo(p: *const std::ffi::c_char, mode: u32) -> i32;
                }
                assert_eq!(unsafe { mkfifo(p.as_ptr(), 0o600) }, 0);
            }
        }
        let before = sc.tree();
        let readme = if s.order.is_empty() { std::fs::read(sc.readme()).ok() } else { s.readme.as_deref().map(bytes) };
        sc.answers(&s.compiler, &s.rustfmt);
        let status = sc.update(s)?;
        st.cover.transitions += sc.calls().len() as u64 + 1;
        st.traces += 1;
        let after = sc.tree();
        st.cover.states.insert(hash((&before, &s.compiler.faults, &s.disturb)));
        let expect = match (&s.via[..], reference(&s.compiler), readme.as_deref()) {
            ("absent", ..) => Err("there is no compiler".to_owned()),
            (_, Err(e), _) => Err(e),
            (_, _, None) => Err("there is no README".to_owned()),
            (_, Ok(x), Some(r)) => readme_reference(r, &x.0).map(|r| (x, r)),
        };
        let differ = |only_readme: bool| -> Option<String> {
            let keys: BTreeSet<&PathBuf> = before.keys().chain(after.keys()).collect();
            keys.into_iter()
                .filter(|k| !only_readme || **k == sc.readme())
                .find(|k| before.get(*k) != after.get(*k))
                .map(|k| format!("{} is {}, was {}", k.display(),
                    after.get(k).map_or("gone".into(), |x| show(x)), before.get(k).map_or("absent".into(), |x| show(x))))
        };
        match expect {
            Err(e) => {
                st.outcome("fails");
                if status.success() {
                    return Err(bad(format!("{at} fails: {e}"), format!("{status}")));
                }
                if let Some(d) = differ(false) {
                    return Err(bad(format!("{at} fails ({e}) and changes nothing"), d));
                }
            }
            Ok(_) if matches!(&s.rustfmt[..], "exit" | "signal" | "absent") || matches!(&s.disturb[..], "no directory" | "list is a directory") => {
                st.outcome("cannot be finished");
                if status.success() {
                    return Err(bad(format!("{at} fails, as the list cannot be written or formatted"), format!("{status}")));
                }
                if let Some(d) = differ(true) {
                    return Err(bad(format!("{at} fails and leaves the README as it was"), d));
                }
            }
            Ok((x, r)) => {
                st.outcome("succeeds");
                if !status.success() {
                    return Err(bad(format!("{at} succeeds"), format!("{status}")));
                }
                if s.order.is_empty() {
                    let is = after.get(&sc.readme()).cloned().unwrap_or_default();
                    if is != r.as_bytes() {
                        return Err(bad(format!("{at} gives the README {}", show(r.as_bytes())), show(&is)));
                    }
                }
                let others = |m: &BTreeMap<PathBuf, Vec<u8>>| -> BTreeMap<PathBuf, Vec<u8>> {
                    m.iter().filter(|(k, _)| **k != sc.readme() && **k != sc.list()).map(|(k, v)| (k.clone(), v.clone())).collect()
                };
                if others(&before) != others(&after) {
                    return Err(bad(format!("{at} writes the list and the README only"), "other files changed"));
                }
                if !c.compile {
                    let f = fresh(s)?;
                    let is = after.get(&sc.list()).cloned().unwrap_or_default();
                    if is != f.0 {
                        return Err(bad(format!("{at} writes the list it writes on its own: {}", show(&f.0)), show(&is)));
                    }
                }
                last = Some(x);
            }
        }
    }
    if c.compile {
        let Some((version, rows)) = last else { return Ok(()) };
        let is = sc.entries(&rows, c.lex)?;
        let want = expected_dump(&version, &rows);
        st.traces += rows.len() as u64;
        for r in &rows {
            let mut k = r.clone();
            k.triple.clear();
            st.cover.states.insert(hash(k.text()));
        }
        if is != want {
            let n = is.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(is.len().min(want.len()));
            return Err(bad(want.get(n).map_or("no more lines", |s| s), is.get(n).map_or("no more lines", |s| s)));
        }
    }
    Ok(())
}

pub fn p18(case: &str, st: &mut Stats) -> Res {
    check(&Case::parse(case), st)
}

// ---- spaces ---------------------------------------------------------------------------------

/// What rustc prints for a target, in its order (sorted)
fn print(r: &Row) -> Vec<String> {
    let mut v = vec!["debug_assertions".to_owned(), format!("panic=\"{}\"", r.panic)];
    v.push(format!("target_abi=\"{}\"", r.abi.as_deref().unwrap_or("")));
    v.push(format!("target_arch=\"{}\"", r.arch));
    v.push(format!("target_endian=\"{}\"", r.endian));
    v.push(format!("target_env=\"{}\"", r.env.as_deref().unwrap_or("")));
    v.extend(r.families.iter().map(|f| format!("target_family=\"{f}\"")));
    v.extend(["fxsr", "sse4.2"].map(|f| format!("target_feature=\"{f}\"")));
    let mut a: Vec<String> = r.atomics.iter().map(|a| format!("target_has_atomic=\"{a}\"")).collect();
    a.sort();
    v.extend(a);
    v.push(format!("target_os=\"{}\"", r.os.as_deref().unwrap_or("none")));
    v.push(format!("target_pointer_width=\"{}\"", r.width));
    v.push(format!("target_vendor=\"{}\"", r.vendor.as_deref().unwrap_or("")));
    v.extend(r.families.iter().filter(|f| *f == "unix" || *f == "windows").cloned());
    v
}

fn lines(v: &[String]) -> String {
    v.iter().map(|l| format!("{l}\n")).collect()
}

/// Targets which together have all of the values in use, as sources refer to these by name
fn base() -> &'static Vec<(String, String)> {
    static B: LazyLock<Vec<(String, String)>> = LazyLock::new(|| {
        let mut seen = BTreeSet::new();
        let mut out = Vec::new();
        for r in GOLDEN.iter() {
            let c: BTreeSet<_> = constants(std::slice::from_ref(r)).into_iter().filter(|c| c.0 != "HasAtomics").collect();
            if r.triple == "aarch64-apple-watchos" || !c.is_subset(&seen) {
                seen.extend(c);
                out.push((r.triple.clone(), lines(&print(r))));
            }
        }
        out
    });
    &B
}

fn version() -> String {
    "rustc 1.99.0 (05f9846f8 2025-03-31)\n".into()
}

fn step(targets: Vec<(String, String)>) -> Step {
    Step { compiler: Compiler { version: version(), targets, faults: BTreeMap::new() }, via: "RUSTC".into(), rustfmt: "real".into(), ..Step::default() }
}

/// A list of the base and these targets
fn table(shapes: &[String]) -> Case {
    let mut t: Vec<(String, String)> = base().clone();
    // in the middle of the base, so that there are entries before and after
    let mid = t.len() / 2;
    t.splice(mid..mid, shapes.iter().enumerate().map(|(i, s)| (format!("shape{i}-some-os_{}", i % 7), s.clone())));
    Case { steps: vec![step(t)], compile: true, lex: false }
}

fn plain() -> Row {
    Row {
        triple: String::new(),
        os: Some("linux".into()),
        abi: None,
        arch: "x86_64".into(),
        env: Some("gnu".into()),
        vendor: Some("unknown".into()),
        families: vec!["unix".into()],
        width: 64,
        endian: "little".into(),
        atomics: ["8", "16", "32", "64", "ptr"].map(String::from).to_vec(),
        panic: "unwind".into(),
    }
}

fn bare() -> Row {
    Row { os: None, env: None, vendor: None, families: vec![], atomics: vec![], panic: "abort".into(), endian: "big".into(), width: 16, arch: "avr".into(), ..plain() }
}

/// Orders of the lines
fn orders(v: Vec<String>) -> Vec<String> {
    let mut r = v.clone();
    r.reverse();
    let k = v.len() / 2;
    let mut rot = v.clone();
    rot.rotate_left(k);
    let mut weave = Vec::new();
    for i in 0..v.len().div_ceil(2) {
        weave.push(v[i].clone());
        if v.len() - 1 - i != i {
            weave.push(v[v.len() - 1 - i].clone());
        }
    }
    [v, r, rot, weave].iter().map(|v| lines(v)).collect()
}

/// All orders of all selections of up to `n` of these
fn selections(of: &[&str], n: usize) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = out.len();
        for i in from..to {
            for x in of {
                if !out[i].iter().any(|y| y == x) {
                    let mut v = out[i].clone();
                    v.push(x.to_string());
                    out.push(v);
                }
            }
        }
        from = to;
    }
    out
}

fn opts(v: &[Option<&str>]) -> Vec<Option<String>> {
    v.iter().map(|o| o.map(str::to_owned)).collect()
}

/// Like `print`, with an absent value left out
fn print_sparse(r: &Row) -> Vec<String> {
    print(r).into_iter().filter(|l| !l.ends_with("=\"\"")).collect()
}

fn shapes_required() -> Vec<String> {
    let mut out = Vec::new();
    for arch in ["x86_64", "avr", "new_arch9", "new-arch-9"] {
        for width in [16, 32, 64, 128] {
            for endian in ["big", "little"] {
                for panic in ["unwind", "abort", "other", "immediate-abort"] {
                    for b in [plain(), bare()] {
                        out.extend(orders(print(&Row { arch: arch.into(), width, endian: endian.into(), panic: panic.into(), ..b })));
                    }
                }
            }
        }
    }
    out
}

fn shapes_optional() -> Vec<String> {
    let mut out = Vec::new();
    for abi in opts(&[None, Some("eabihf"), Some("x-abi-2")]) {
        for env in opts(&[None, Some("gnu"), Some("y-env")]) {
            for os in opts(&[None, Some("linux"), Some("z-os-9"), Some("unknown")]) {
                for vendor in opts(&[None, Some("unknown"), Some("p-q"), Some("apple")]) {
                    let r = Row { abi: abi.clone(), env: env.clone(), os: os.clone(), vendor, ..plain() };
                    out.extend(orders(print(&r)));
                    out.push(lines(&print_sparse(&r)));
                }
            }
        }
    }
    out
}

fn shapes_groups() -> Vec<String> {
    let mut out = Vec::new();
    for f in selections(&["unix", "windows", "wasm", "newfam", "new-fam"], 3) {
        for b in [plain(), bare()] {
            let r = Row { families: f.clone(), ..b };
            out.push(lines(&print(&r)));
        }
    }
    let all = ["8", "16", "32", "64", "128", "ptr"];
    for m in 0..64u32 {
        let set: Vec<String> = (0..6).filter(|i| m >> i & 1 == 1).map(|i| all[i].to_owned()).collect();
        for b in [plain(), bare()] {
            out.extend(orders(print(&Row { atomics: set.clone(), ..b })));
        }
    }
    // unusual sizes, and all orders of some
    for s in selections(&["8", "16", "128", "ptr"], 4) {
        let mut v = print(&Row { atomics: vec![], ..plain() });
        let at = v.len() - 5;
        v.splice(at..at, s.iter().map(|a| format!("target_has_atomic=\"{a}\"")));
        out.push(lines(&v));
    }
    for s in [vec!["1"], vec!["256", "9"], vec!["65535", "ptr"], vec!["0"]] {
        out.push(lines(&print(&Row { atomics: s.into_iter().map(String::from).collect(), ..plain() })));
    }
    out
}

fn shapes_noise() -> Vec<String> {
    let noise = [
        "debug_assertions", "target_has_atomic", "target_thread_local", "ub_checks", "overflow_checks", "proc_macro", "unix", "windows", "",
        "relocation_model=\"pic\"", "target_has_atomic_equal_alignment=\"128\"", "target_has_atomic_load_store=\"16\"", "fmt_debug=\"full\"",
        "target_feature=\"crt-static\"", "target_feature=\"\"", "target_feature=\"v9.5a=x\"",
    ];
    let mut out = Vec::new();
    for b in [plain(), bare()] {
        let v = print(&b);
        for n in noise {
            for i in 0..=v.len() {
                let mut w = v.clone();
                w.insert(i, n.to_owned());
                out.push(lines(&w));
            }
        }
        // no noise at all, and no end of the last line
        let w: Vec<String> = v.iter().filter(|l| l.contains('=') && !l.contains("feature")).cloned().collect();
        out.push(lines(&w));
        out.push(lines(&w).trim_end().to_owned());
    }
    out
}

/// Names which a value can have: its constant is an identifier, and no function of its type
fn names() -> Vec<String> {
    const NOT: &[&str] = &[
        "new", "new_const", "as_str", "contains", "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl",
        "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe",
        "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "gen", "macro", "override", "priv", "try", "typeof",
        "unsized", "virtual", "yield", "none", "_",
    ];
    let m = &crate::mine::TOOL;
    let mut s: BTreeSet<String> = BTreeSet::new();
    for w in m.words.iter().chain(&m.idents) {
        for w in [w.clone(), w.to_lowercase(), w.trim_matches(|c: char| !c.is_alphanumeric()).to_owned()] {
            if w.starts_with(|c: char| c.is_ascii_alphabetic()) && w.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') && !w.starts_with("Self") {
                s.insert(w);
            }
        }
    }
    // one name for each constant
    let mut by: BTreeMap<String, String> = BTreeMap::new();
    for r in GOLDEN.iter() {
        for v in r.os.iter().chain(&r.abi).chain([&r.arch]).chain(&r.env).chain(&r.vendor).chain(&r.families).chain([&r.panic]) {
            by.insert(v.replace('-', "_"), v.clone());
        }
    }
    for w in s {
        by.entry(w.replace('-', "_")).or_insert(w);
    }
    by.into_values().filter(|w| !NOT.contains(&&w[..])).collect()
}

/// Each name as each value, alone and with others
fn shapes_names() -> Vec<String> {
    let n = names();
    let mut out = Vec::new();
    for (i, w) in n.iter().enumerate() {
        let o = &n[(i * 7 + 3) % n.len()];
        let p = plain;
        let fam = if w == "unix" { "wasm" } else { "unix" };
        let s = || Some(w.clone());
        let t = || Some(o.clone());
        for r in [
            Row { os: s(), ..p() },
            Row { abi: s(), ..p() },
            Row { arch: w.clone(), ..p() },
            Row { env: s(), ..p() },
            Row { vendor: s(), ..p() },
            Row { families: vec![w.clone()], ..p() },
            Row { families: vec![w.clone(), fam.into()], ..p() },
            Row { families: vec![fam.into(), w.clone()], ..bare() },
            Row { panic: w.clone(), ..p() },
            Row { os: s(), abi: s(), env: s(), vendor: s(), arch: w.clone(), families: vec![w.clone()], panic: w.clone(), ..p() },
            Row { os: s(), abi: t(), env: s(), vendor: t(), arch: w.clone(), ..bare() },
            Row { os: t(), abi: s(), env: t(), vendor: s(), panic: w.clone(), ..bare() },
        ] {
            out.push(lines(&print(&r)));
        }
    }
    out
}

/// Numbers as widths and sizes
fn shapes_numbers() -> Vec<String> {
    let mut out = Vec::new();
    for w in 0..=255 {
        out.push(lines(&print(&Row { width: w, ..if w % 2 == 0 { plain() } else { bare() } })));
    }
    let mut sizes: BTreeSet<usize> = (0..=130).collect();
    sizes.extend(crate::mine::TOOL.counts(65535));
    sizes.extend([255, 256, 512, 1024, 4096, 65534, 65535]);
    for s in sizes {
        out.push(lines(&print(&Row { atomics: vec![s.to_string()], ..plain() })));
        let o = if s == 64 { 63 } else { 64 };
        let mut both = [s, o];
        both.sort();
        out.push(lines(&print(&Row { atomics: both.iter().map(|s| s.to_string()).chain(["ptr".to_owned()]).collect(), ..plain() })));
    }
    out
}

/// Names of targets
fn target_names() -> Vec<String> {
    let ok = |w: &str| w.starts_with(|c: char| c.is_ascii_alphanumeric()) && w.chars().all(|c| c.is_ascii_alphanumeric() || "_-.".contains(c));
    let mut s: BTreeSet<String> = BTreeSet::new();
    for w in names().into_iter().chain(crate::mine::TOOL.words.iter().cloned()) {
        for x in [w.clone(), format!("{w}-a"), format!("a-{w}"), format!("a-{w}-b"), format!("x{w}"), format!("{w}x")] {
            if ok(&x) {
                s.insert(x);
            }
        }
    }
    for g in GOLDEN.iter() {
        for x in [format!("{}x", g.triple), g.triple[..g.triple.len() - 1].to_owned(), format!("{}-sim", g.triple), g.triple.replace('-', "_"), g.triple.to_uppercase()] {
            s.insert(x);
        }
    }
    for g in GOLDEN.iter() {
        s.remove(&g.triple);
    }
    s.remove("version");
    s.remove("target-list");
    s.into_iter().collect()
}

/// A list in which each of these shapes comes right after each other, and itself
fn neighbours(n: usize) -> Vec<usize> {
    // an Eulerian circuit of the complete graph with loops
    let mut out = Vec::new();
    for i in 0..n {
        out.push(i);
        for j in i + 1..n {
            out.push(i);
            out.push(j);
        }
    }
    out.push(0);
    out
}

fn shapes_present() -> Vec<String> {
    (0..64u32)
        .map(|m| {
            let on = |i: u32| m >> i & 1 == 1;
            let r = Row {
                os: on(0).then(|| "freebsd".into()),
                abi: on(1).then(|| "eabi".into()),
                env: on(2).then(|| "musl".into()),
                vendor: on(3).then(|| "apple".into()),
                families: if on(4) { vec!["unix".into(), "wasm".into()] } else { vec![] },
                atomics: if on(5) { vec!["8".into(), "128".into()] } else { vec![] },
                ..plain()
            };
            lines(&if m.count_ones() % 2 == 0 { print(&r) } else { print_sparse(&r) })
        })
        .collect()
}

/// Minimizes a table which fails: the fewest shapes which still do
fn run_table(ctx: &mut Ctx<'_>, case: Case) {
    if ctx.stop() {
        return;
    }
    let mut st = Stats::default();
    let r = guarded(|| check(&case, &mut st)).unwrap_or_else(Err);
    let mut case = case;
    if r.is_err() {
        let t0 = Instant::now();
        let n = |c: &Case| c.steps[0].compiler.targets.len();
        let mut size = n(&case) / 2;
        while size >= 1 && t0.elapsed() < Duration::from_secs(60) {
            let mut i = 0;
            while i < n(&case) && t0.elapsed() < Duration::from_secs(60) {
                let mut c = case.clone();
                let t = &mut c.steps[0].compiler.targets;
                let end = (i + size).min(t.len());
                let gone: Vec<_> = t.drain(i..end).collect();
                // base targets stay
                if gone.iter().any(|g| !g.0.starts_with("shape")) {
                    i += size;
                    continue;
                }
                if guarded(|| check(&c, &mut Stats::default())).unwrap_or_else(Err).is_err() {
                    case = c;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
    }
    let minimized = r.is_err();
    ctx.case(&case.text(), |s| {
        if minimized {
            return check(&case, s);
        }
        s.cover.states.extend(st.cover.states);
        s.cover.transitions += st.cover.transitions;
        s.traces += st.traces;
        for (k, v) in st.outcomes {
            *s.outcomes.entry(k).or_default() += v;
        }
        r
    });
}

fn clean() {
    let d = build_dir().join("upd");
    for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let pid: Option<u32> = n.split('-').next().and_then(|p| p.parse().ok());
        if pid.is_some_and(|p| p == std::process::id() || !Path::new(&format!("/proc/{p}")).exists()) {
            remove(&e.path());
        }
    }
}

/// Some compilers which differ in everything
fn compilers() -> Vec<Compiler> {
    let t = |triple: &str, r: &Row| (triple.to_owned(), lines(&print(r)));
    let a = plain();
    let b = bare();
    let c = Row { abi: Some("x-y".into()), os: Some("new-os".into()), vendor: Some("apple".into()), families: vec!["wasm".into(), "unix".into()], ..plain() };
    let comp = |v: &str, targets: Vec<(String, String)>| Compiler { version: format!("{v}\n"), targets, faults: BTreeMap::new() };
    let mut out = vec![
        comp("rustc 1.87.0 (17067e9ac 2025-05-09)", vec![t("x-a", &a), t("y-b", &b), t("z-c", &c)]),
        comp("rustc 1.88.0-nightly (17067e9ac 2025-05-09)", vec![t("y-b", &b)]),
        comp("rustc 1.100.0", vec![t("z-c", &a), t("y-b", &c), t("x-a", &b), t("w-d", &a)]),
    ];
    let mut broken = out[0].clone();
    broken.faults.insert("y-b".into(), Answer { code: 1, err: "error: no".into(), ..Answer::default() });
    out.push(broken);
    out
}

const INITIAL: [&str; 5] = ["", "no list", "empty list", "garbage list", "long list"];

pub fn explore18(r: &mut Run) {
    clean();
    let cut = |v: Vec<String>, n: usize| -> Vec<Case> { v.chunks(v.len().div_ceil(n)).map(table).collect() };
    let tables = |r: &mut Run, name: &str, v: Vec<Case>| r.space(name, v.len() as u64, |i, ctx| run_table(ctx, v[i as usize].clone()));

    // the compiler the committed list is of
    let golden: Vec<(String, Vec<String>)> = GOLDEN.iter().map(|g| (g.triple.clone(), print(g))).collect();
    let mut v = Vec::new();
    for (k, lex) in [(0, false), (1, true), (2, false)] {
        let t = golden.iter().map(|(t, l)| (t.clone(), orders(l.clone())[k].clone())).collect();
        let mut s = step(t);
        s.compiler.version = "rustc 1.86.0 (05f9846f8 2025-03-31)\n".into();
        v.push(Case { steps: vec![s], compile: true, lex });
    }
    tables(r, "rustc 1.86.0", v);
    r.space("committed list and README", 1, |_, ctx| {
        let case = "committed";
        ctx.case(case, |st| committed(st));
    });
    tables(r, "options every target has", cut(shapes_required(), 8));
    tables(r, "options with and without a value", cut(shapes_optional(), 8));
    tables(r, "families and atomics", cut(shapes_groups(), 8));
    tables(r, "words as values", cut(shapes_names(), 8));
    tables(r, "numbers as values", cut(shapes_numbers(), 4));
    // names of targets, in every second list among the known ones
    let names = target_names();
    r.notes.push(crate::mine::TOOL.note());
    let shapes = [lines(&print(&plain())), lines(&print(&bare()))];
    let v = names.chunks(names.len().div_ceil(4)).map(|n| {
        let mut t = base().clone();
        for (i, n) in n.iter().enumerate() {
            t.insert(t.len().min(i * 2), (n.clone(), shapes[i % 2].clone()));
        }
        Case { steps: vec![step(t)], compile: true, lex: false }
    }).collect();
    tables(r, "names of targets", v);
    tables(r, "options which are ignored", cut(shapes_noise(), 8));
    // each set of options which are present, after each other
    let sh = shapes_present();
    let seq: Vec<String> = neighbours(64).into_iter().map(|i| sh[i].clone()).collect();
    let mut v = Vec::new();
    for i in (0..seq.len() - 1).step_by(512) {
        v.push(table(&seq[i..(i + 513).min(seq.len())]));
    }
    tables(r, "each set of options after each", v);
    // small lists, with few targets of their own
    let few = [lines(&print(&plain())), lines(&print(&bare())), sh[63].clone(), sh[2].clone(), sh[40].clone()];
    let mut small: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..if r.thorough { 3 } else { 2 } {
        let to = small.len();
        for i in from..to {
            for k in 0..few.len() {
                let mut w = small[i].clone();
                w.push(k);
                small.push(w);
            }
        }
        from = to;
    }
    let v = small.iter().map(|w| table(&w.iter().map(|k| few[*k].clone()).collect::<Vec<_>>())).collect();
    tables(r, "short lists", v);
    // lists in every order
    let mut v = Vec::new();
    for p in selections(&["0", "1", "2", "3"], 4).into_iter().filter(|p| p.len() == if r.thorough { 4 } else { 3 }) {
        let mut t = base().clone();
        for (i, k) in p.iter().enumerate() {
            let k: usize = k.parse().unwrap();
            let name = ["zz-last", "aa-first", "mm-middle", "x86_64-a"][k];
            t.insert(i * 3, (name.into(), few[k].clone()));
        }
        v.push(Case { steps: vec![step(t)], compile: true, lex: false });
    }
    tables(r, "orders of targets", v);
    // versions and READMEs
    let mut v = Vec::new();
    let readmes = [
        None,
        Some("x [1.86.0]\n[1.86.0]: y\n"),
        Some("[1.2.3]:"),
        Some("badge-1.0.0-blue [other] [text]: (link) 1.0.0 (1.0.0)\n\n[1.0.0]: (https://x/1.0.0)"),
        Some("\u{c3}\u{a9} [beta-1]: \u{e2}\u{82}\u{ac} beta-1\nbeta-1"),
        Some("[a]: b\n[1.86.0]: c\r\n1.86.0\r\n]]]["),
    ];
    let mut many: Vec<String> = [2usize, 5, 9, 17, 33, 70, 300].iter().map(|n| format!("{}{}\n[1.86.0]: x{}", "1.86.0".repeat(*n), " a 1.86.0\n".repeat(*n), "1.86.0".repeat(*n))).collect();
    many.push(format!("{}[1.86.0]: x", " 1.86.0 y".repeat(20_000)));
    let many: Vec<Option<&str>> = many.iter().map(|s| Some(&s[..])).collect();
    for ver in [
        "rustc 1.99.0 (05f9846f8 2025-03-31)\n", "rustc 1.99.0\n", "rustc 1.99.0", "rustc 1.100.0-nightly (05f9846f8 2025-03-31)\n",
        "rustc 1.87.0-beta.3 (05f9846f8 2025-03-31) (built from a source tarball)\n", "rustc 2.0.0-dev\n", "rustc 1.99.0 (a b)\nwarning: x y\n",
        "rustc 1.86.0 (05f9846f8 2025-03-31)\n",
    ].map(String::from).into_iter().chain(crate::mine::TOOL.words.iter().filter(|w| !w.contains(char::is_whitespace) && w.is_ascii()).map(|w| format!("rustc 1.{w} (x)\n"))) {
        for readme in readmes.iter().chain(if ver.starts_with("rustc 1.99.0") { &many[..] } else { &[] }) {
            for via in ["RUSTC", "PATH", "OTHER"] {
                let mut s = step(compilers()[0].targets.clone());
                s.compiler.version = ver.clone();
                s.readme = readme.map(str::to_owned);
                s.via = via.into();
                s.rustfmt = "fake".into();
                v.push(Case { steps: vec![s], compile: false, lex: false });
            }
        }
    }
    r.space("versions and READMEs", v.len() as u64, |i, ctx| {
        let c = &v[i as usize];
        ctx.case(&c.text(), |st| check(c, st));
    });
    // histories
    let comps = compilers();
    let depth = if r.thorough { 5 } else { 4 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = seqs.len();
        for i in from..to {
            for k in 0..comps.len() {
                let mut w = seqs[i].clone();
                w.push(k);
                seqs.push(w);
            }
        }
        from = to;
    }
    let cases: Vec<Case> = INITIAL.iter().flat_map(|init| seqs.iter().skip(1).filter(move |s| init.is_empty() || s.len() <= 2).map(|s| {
        let mut steps: Vec<Step> = s.iter().map(|k| Step { compiler: comps[*k].clone(), ..step(vec![]) }).map(|mut x| {
            x.rustfmt = "fake".into();
            x
        }).collect();
        steps[0].disturb = init.to_string();
        Case { steps, compile: false, lex: false }
    })).collect();
    r.space("histories of updates", cases.len() as u64, |i, ctx| {
        let c = &cases[i as usize];
        ctx.case(&c.text(), |st| check(c, st));
    });
    // the same, formatted and compiled
    let mut v = Vec::new();
    for init in INITIAL {
        let mut b = step(base().clone());
        let mut first = step(base().iter().rev().cloned().collect());
        first.disturb = init.into();
        first.compiler.version = "rustc 1.98.0\n".into();
        b.compiler.version = "rustc 1.97.0\n".into();
        v.push(Case { steps: vec![first, b], compile: true, lex: false });
    }
    tables(r, "lists which replace other lists", v);
    r.notes.push("the update tool of the working tree is run as a program in a scratch copy of the sources; the compiler is a stand-in which answers as the case says; the list is formatted by rustfmt, compiled within the crate and printed by a program using its public interface".into());
    clean();
}

/// The committed list has the entries and constants of the list for rustc 1.86.0, and the
/// README states that version
fn committed(st: &mut Stats) -> Res {
    let sc = Scratch::mine();
    sc.reset();
    let is = sc.entries(&GOLDEN, false)?;
    let want = expected_dump("1.86.0", &GOLDEN);
    st.traces += 1;
    if let Some(n) = (0..is.len().max(want.len())).find(|n| is.get(*n) != want.get(*n)) {
        return Err(bad(want.get(n).map_or("no more lines", |s| s), is.get(n).map_or("no more lines", |s| s)));
    }
    let r = std::fs::read(sc.readme()).unwrap_or_default();
    match readme_reference(&r, "1.86.0") {
        Ok(x) if x.as_bytes() == r => Ok(()),
        Ok(x) => Err(bad(x, show(&r))),
        Err(e) => Err(bad("a version in the README", e)),
    }
}

pub fn one18(case: &str, st: &mut Stats) -> Res {
    let r = if case == "committed" { committed(st) } else { p18(case, st) };
    clean();
    r
}

pub fn explore19(r: &mut Run) {
    clean();
    let good = compilers()[0].clone();
    let a = |out: &str, err: &str, code: i32, signal: i32| Answer { out: out.into(), err: err.into(), code, signal };
    // what may happen at a call instead of its answer
    let full = lines(&print(&plain()));
    let kinds = |k: &str| -> Vec<Answer> {
        let normal = match k {
            "version" => good.version.clone(),
            "target-list" => good.targets.iter().map(|t| format!("{}\n", t.0)).collect(),
            t => good.targets.iter().find(|x| x.0 == t).map(|x| x.1.clone()).unwrap_or_default(),
        };
        let mut v = vec![
            a("", "error: no", 1, 0),
            a(&normal, "", 1, 0),
            a(&normal, "warning", 101, 0),
            a(&normal, "", 255, 0),
            a("", "\u{ff}\u{fe}", 1, 0),
            a(&normal, "", 0, 9),
            a("", "", 0, 6),
            a(&normal, "", 0, 4),
            a(&format!("{normal}\u{ff}"), "", 0, 0),
            a("\u{c3}", "", 0, 0),
        ];
        match k {
            "version" => v.extend([a("", "", 0, 0), a("rustc", "", 0, 0), a("rustc\n", "", 0, 0), a("\n\n", "", 0, 0)]),
            "target-list" => v.extend([a("not-a-target\n", "", 0, 0), a(&format!("{normal}other"), "", 0, 0), a(&normal[..normal.len() - 2], "", 0, 0), a("\n", "", 0, 0)]),
            _ => v.extend([a("", "", 0, 0), a("nonsense\n", "", 0, 0), a("a=\"b\"\n", "", 0, 0), a(&format!("{normal}new_key=\"x\"\n"), "", 0, 0)]),
        }
        v
    };
    let calls = ["version", "target-list", "x-a", "y-b", "z-c"];
    let all: Vec<(String, Answer)> = calls.iter().flat_map(|k| kinds(k).into_iter().map(|x| (k.to_string(), x))).collect();
    let mk = |faults: Vec<(String, Answer)>| -> Case {
        let mut s = step(good.targets.clone());
        s.compiler = good.clone();
        s.compiler.faults = faults.into_iter().collect();
        s.rustfmt = "fake".into();
        // the files still are as they were, so a later update is as if nothing had happened
        let mut later = step(good.targets.clone());
        later.compiler = good.clone();
        later.rustfmt = "fake".into();
        Case { steps: vec![s, later], compile: false, lex: false }
    };
    let run = |r: &mut Run, name: &str, v: Vec<Case>| r.space(name, v.len() as u64, |i, ctx| {
        let c = &v[i as usize];
        ctx.case(&c.text(), |st| check(c, st));
    });
    // where in the history the failure is
    let mut v = Vec::new();
    for f in &all {
        let c = mk(vec![f.clone()]);
        for init in INITIAL {
            let mut c = c.clone();
            c.steps[0].disturb = init.into();
            v.push(c);
        }
        let mut c2 = c.clone();
        c2.steps.insert(0, Step { compiler: compilers()[2].clone(), rustfmt: "fake".into(), ..step(vec![]) });
        v.push(c2);
        for via in ["PATH", "absent"] {
            let mut c = c.clone();
            c.steps[0].via = via.into();
            v.push(c);
        }
        // formatting must not happen, let alone matter
        for fmt in ["exit", "absent", "real"] {
            let mut c = c.clone();
            c.steps[0].rustfmt = fmt.into();
            v.push(c);
        }
    }
    run(r, "one failing call", v);
    let mut v = Vec::new();
    for i in 0..all.len() {
        for j in i + 1..all.len() {
            if all[i].0 != all[j].0 {
                let mut c = mk(vec![all[i].clone(), all[j].clone()]);
                c.steps.truncate(1);
                v.push(c);
            }
        }
    }
    run(r, "two failing calls", v);
    // answers which are not understood
    let mut v = Vec::new();
    let with = |t: &str, cfg: String| -> Case { mk(vec![(t.to_owned(), a(&cfg, "", 0, 0))]) };
    for t in ["x-a", "y-b", "z-c"] {
        let l = print(&Row { abi: Some("eabi".into()), ..plain() });
        // each set of options every target must have missing
        let req = ["panic=", "target_arch=", "target_endian=", "target_pointer_width="];
        for m in 1..16u32 {
            let w: Vec<String> = l.iter().filter(|x| !(0..4).any(|i| m >> i & 1 == 1 && x.starts_with(req[i]))).cloned().collect();
            v.push(with(t, lines(&w)));
        }
        // unknown options, at each place
        for key in [
            "target_object_format", "target_has_atomic_primitive_alignment", "target_oss", "target_o", "Panic", "target_os ", " target_os", "targetos",
            "target_has_reliable_f16", "overflow_checks", "unix", "target_thread_local", "", "target_feature2", "relocation_models", "\u{c3}\u{a9}",
        ] {
            for i in 0..=l.len() {
                let mut w = l.clone();
                w.insert(i, format!("{key}=\"x\""));
                v.push(with(t, lines(&w)));
            }
        }
        let known = ["panic", "fmt_debug", "relocation_model"];
        for key in crate::mine::TOOL.words.iter().chain(&crate::mine::TOOL.idents) {
            if key.contains(['=', '\n', '\r']) || !key.is_ascii() || key.starts_with("target_") || known.contains(&&key[..]) {
                continue;
            }
            for key in [key.clone(), format!("target_{key}")] {
                for x in ["x", ""] {
                    let mut w = l.clone();
                    w.insert(key.len() % (w.len() + 1), format!("{key}=\"{x}\""));
                    v.push(with(t, lines(&w)));
                }
            }
        }
        // sizes which are none
        for s in ["", "x", "pt", "ptr ", "Ptr", "8 ", " 8", "-8", "65536", "1e3", "0x8", "8.0", "99999999999999999999"] {
            for i in 0..=l.len() {
                let mut w = l.clone();
                w.insert(i, format!("target_has_atomic=\"{s}\""));
                v.push(with(t, lines(&w)));
            }
        }
        // values which are not quoted
        for i in 0..l.len() {
            let Some((k, x)) = l[i].split_once('=') else { continue };
            let x = x.trim_matches('"');
            for y in [x.to_owned(), format!("\"{x}"), format!("{x}\""), String::new(), "\"".into(), format!("'{x}'"), format!("\"{x}\" "), format!(" \"{x}\""), format!("{x}\u{c3}\u{a9}")] {
                let mut w = l.clone();
                w[i] = format!("{k}={y}");
                v.push(with(t, lines(&w)));
            }
        }
        // torn answers: as some are whole, the reference decides
        for i in 0..full.len() {
            v.push(with(t, full[..i].to_owned()));
        }
    }
    for c in &mut v {
        if !c.steps.is_empty() {
            c.steps.truncate(1);
        }
    }
    run(r, "answers which are not understood", v);
    // the README
    let readmes = [
        "", "x", "[1.0.0]", "]: [", "1.0.0]: x", "[1.0.0] : x", "[1.0.0\n:]", "\u{ff}[1.0.0]: x", "[1.0.0]: \u{c3}", "[1.0.0]: \u{c3}\u{a9}", "[1.0.0]:",
    ];
    let mut v = Vec::new();
    let mut faults: Vec<Option<(String, Answer)>> = vec![None];
    faults.extend(all.iter().cloned().map(Some));
    for f in &faults {
        for d in ["no README", "README is a directory"] {
            let mut c = mk(f.iter().cloned().collect());
            c.steps[0].disturb = d.into();
            c.steps.truncate(1);
            v.push(c);
        }
        for text in readmes {
            let mut c = mk(f.iter().cloned().collect());
            c.steps[0].readme = Some(text.into());
            c.steps.truncate(1);
            v.push(c);
        }
    }
    run(r, "READMEs", v);
    // schedules of the two parts which run at the same time: the README is there before the
    // compiler is done or after, and either or both fail
    let mut v = Vec::new();
    for f in faults.iter().step_by(2) {
        for text in ["", "[1.0.0", "\u{ff}[1.0.0]: x"] {
            for order in ["before", "after"] {
                let mut c = mk(f.iter().cloned().collect());
                c.steps[0].readme = Some(text.into());
                c.steps[0].order = order.into();
                c.steps.truncate(1);
                v.push(c);
            }
        }
    }
    run(r, "README before and after the compiler", v);
    // the end: writing and formatting
    let mut v = Vec::new();
    for fmt in ["exit", "signal", "absent"] {
        for init in INITIAL {
            for comp in compilers().into_iter().take(3) {
                let mut c = mk(vec![]);
                c.steps[0].compiler = comp;
                c.steps[0].rustfmt = fmt.into();
                c.steps[0].disturb = init.into();
                v.push(c);
            }
        }
    }
    for d in ["no directory", "list is a directory"] {
        let mut c = mk(vec![]);
        c.steps[0].disturb = d.into();
        c.steps.truncate(1);
        v.push(c);
    }
    run(r, "failing to write or format", v);
    // a list of many targets, failing at each of them
    let many: Vec<(String, String)> = base().clone();
    let n = many.len();
    let mut v = Vec::new();
    for i in 0..n {
        for x in [a("", "error", 1, 0), a("target_arch=\"x\"\n", "", 0, 0), a(&many[i].1, "", 0, 15)] {
            let mut s = step(many.clone());
            s.rustfmt = "fake".into();
            s.compiler.faults.insert(many[i].0.clone(), x);
            v.push(Case { steps: vec![s], compile: false, lex: false });
        }
    }
    run(r, "each of many targets", v);
    clean();
}

pub fn one19(case: &str, st: &mut Stats) -> Res {
    let r = p18(case, st);
    clean();
    r
}
