mod engine;
mod json;
mod mine;
mod mix;
mod model;
mod p_equal;
mod p_eval;
mod p_hist;
mod p_spell;
mod p_target;
#[cfg(feature = "lex")]
mod p_triple;
mod p_text;
mod p_update;
mod p_whole;
mod texts;

use engine::*;
use json::J;
use std::collections::BTreeMap;
use std::process::{Command, exit};
use std::time::Instant;

pub struct Prop {
    id: &'static str,
    explore: fn(&mut Run),
    one: fn(&str, &mut Stats) -> Res,
    test: fn(&str) -> String,
    /// what is trusted or left out
    assumptions: &'static [&'static str],
    /// which of the builds it is explored in: checked with targets, release without
    builds: &'static [&'static str],
}

const BOTH: &[&str] = &["checked", "release"];

const MODEL: &str = "the reference model (mc/src/model.rs) states the grammar, errors and predicates as the properties mean them";

fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", explore: p_text::explore01, one: p_text::p01, test: p_text::test01, assumptions: &[MODEL], builds: BOTH },
        Prop { id: "P02", explore: p_text::explore02, one: p_text::p02, test: p_text::test02, assumptions: &[MODEL], builds: BOTH },
        Prop { id: "P03", explore: p_text::explore03, one: p_text::p03, test: p_text::test03, assumptions: &[MODEL], builds: BOTH },
        Prop { id: "P04", explore: p_text::explore04, one: p_text::p04, test: p_text::test04, assumptions: &["time is CPU time of one thread, for texts of 16 kB to 1 MB; a factor of 26 or more for 8 times the text counts as worse than linear"], builds: BOTH },
        Prop { id: "P06", explore: p_spell::explore06, one: p_spell::one06, test: p_text::test04, assumptions: &["texts are taken apart by the reference lexer; accepted and rejected texts of the spaces are compared with their respellings, on the implementation only"], builds: BOTH },
        Prop { id: "P07", explore: p_eval::explore07, one: p_eval::p07, test: p_eval::test_eval, assumptions: &[MODEL, "of lists of more than 8 distinct predicates, the assignments explored are the uniform ones, those with one predicate which differs, and two alternating ones"], builds: BOTH },
        Prop { id: "P08", explore: p_eval::explore08, one: p_eval::p08, test: p_eval::test_eval, assumptions: &[MODEL, "of lists of more than 5 distinct predicates, the assignments explored are the uniform ones, those with one predicate which differs, and two alternating ones"], builds: BOTH },
        Prop { id: "P09", explore: p_eval::explore09, one: p_eval::p09, test: p_eval::test_eval, assumptions: &[MODEL, "terms are compared modulo associativity, commutativity and neutral elements"], builds: BOTH },
        Prop { id: "P16", explore: p_hist::explore16, one: p_hist::p16, test: |_| String::new(), assumptions: &["threads switch where control is with the user: in closures, logic operations, iterators and writers; in between, before accesses to memory which several threads use (schedules within the library, see notes), in sequentially consistent memory"], builds: BOTH },
        Prop { id: "P17", explore: p_spell::explore17, one: p_spell::p17, test: p_spell::test17, assumptions: &["texts which the reference model accepts"], builds: BOTH },
        Prop { id: "P10", explore: p_target::explore10, one: p_target::p10, test: p_target::test10, assumptions: &["of the infinitely many texts which are no triple, those explored are near one, combined from parts of several, or short"], builds: BOTH },
        Prop { id: "P11", explore: p_target::explore11, one: p_target::p11, test: p_target::test11, assumptions: &["what rustc 1.86.0 answers is taken from the snapshot data/golden.txt; the installed rustc 1.99.1 says the same of 262 of the 287 targets, and all others are changes of later versions (DESIGN.md)"], builds: BOTH },
        Prop { id: "P12", explore: p_target::explore12, one: p_target::p12, test: |_| String::new(), assumptions: &[], builds: BOTH },
        #[cfg(feature = "lex")]
        Prop { id: "P13", explore: p_triple::explore13, one: p_triple::p13, test: p_triple::test13, assumptions: &["builtin triples which target-lexicon cannot parse are left out"], builds: &["checked"] },
        #[cfg(feature = "lex")]
        Prop { id: "P14", explore: p_triple::explore14, one: p_triple::p14, test: |_| String::new(), assumptions: &["the architectures, vendors, systems and environments are those of target-lexicon 0.13.2, with 14 custom vendors"], builds: &["checked"] },
        Prop { id: "P15", explore: p_target::explore15, one: p_target::p15, test: |_| String::new(), assumptions: &[], builds: BOTH },
        Prop { id: "P18", explore: p_update::explore18, one: p_update::one18, test: |_| String::new(), assumptions: &["values are made of letters, digits, - and _, with - only in an abi, env, os or vendor, as those of all rustc targets; no two options differ in - and _ only"], builds: &["release"] },
        Prop { id: "P19", explore: p_update::explore19, one: p_update::one19, test: |_| String::new(), assumptions: &["the stand-in of the compiler ends as a whole: output is there in full when it exits"], builds: &["release"] },
        Prop { id: "P20", explore: p_equal::explore20, one: p_equal::p20, test: |_| String::new(), assumptions: &[MODEL], builds: BOTH },
        Prop { id: "P21", explore: p_whole::explore21, one: p_whole::p21, test: p_whole::test21, assumptions: &[MODEL, "what rustc 1.86.0 sets is taken from the snapshot data/golden.txt, as for P11"], builds: BOTH },
        Prop { id: "P05", explore: p_text::explore05, one: p_text::p05, test: p_text::test05, assumptions: &[MODEL], builds: BOTH },
    ]
}

fn main() {
    p_update::stand_in();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    match a[..] {
        // run <id> <dir of /verif> <name=binary>...
        ["run", id, dir, ref bins @ ..] => run(id, dir, bins),
        ["child", id, slots, out, dir] => child(id, slots, out, dir),
        // operations of P16
        ["op16", ref ops @ ..] => {
            quiet_panics();
            p_hist::op16(ops)
        }
        // checks a single case: 0 if it holds, 1 if not
        ["one", id, file] => one(id, file),
        // what the reference model says of each line (tools/check_model.py)
        ["model"] => model_verdicts(),
        // replays a recorded violation: 1 if it is still there
        ["replay", file, ref bins @ ..] => replay(file, bins),
        _ => {
            eprintln!("usage: mc run ID DIR NAME=BINARY... | mc replay FILE NAME=BINARY...");
            exit(2);
        }
    }
}

/// For each line the values under the 8 assignments of a, b and k = "v" (anything else is false),
/// or - if the text is not in the grammar
fn model_verdicts() {
    use model::{F, P};
    let mut out = String::new();
    for line in std::io::stdin().lines() {
        match model::parse(&line.expect("text"), None) {
            Err(_) => out.push('-'),
            Ok(ast) => {
                let v = ast.fold(
                    |i| match &ast.preds[i as usize] {
                        P::Flag(a) if a == "a" => 0xaau8,
                        P::Flag(a) if a == "b" => 0xcc,
                        P::KeyValue(k, v) if k == "k" && v == "v" => 0xf0,
                        _ => 0,
                    },
                    |f, args| match f {
                        F::All => args.iter().fold(0xff, |x, y| x & y),
                        F::Any => args.iter().fold(0, |x, y| x | y),
                        F::Not => !args[0],
                    },
                );
                out.push_str(&format!("{v:02x}"));
            }
        }
        out.push('\n');
    }
    print!("{out}");
}

fn prop(id: &str) -> Prop {
    props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property {id}");
        exit(2);
    })
}

fn known_cases(dir: &str, id: &str) -> Vec<String> {
    // lines: known: property=<id> case=<JSON string> <what fails>
    let t = std::fs::read_to_string(format!("{dir}/known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} case=")))
        .filter_map(|l| json::parse(l).map(|j| j.str().to_owned()))
        .collect()
}

fn child(id: &str, slots: &str, out: &str, dir: &str) {
    quiet_panics();
    open_slots(slots);
    let p = prop(id);
    let o = out.to_owned();
    watchdog(move |case, what| {
        let r = format!(
            "{{\"violations\":[{{\"space\":\"\",\"case\":{},\"expected\":\"an answer\",\"observed\":{}}}]}}",
            json::s(&case),
            json::s(&what)
        );
        let _ = std::fs::write(&o, r);
        exit(0);
    });
    let mut r = Run {
        id: id.to_owned(),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8),
        stats: Stats::default(),
        spaces: vec![],
        samples: vec![],
        notes: vec![],
        violations: vec![],
        known: known_cases(dir, id),
        known_seen: vec![],
    };
    (p.explore)(&mut r);
    std::fs::write(out, r.report()).expect("report");
    // not waiting for anything which may still hang
    exit(0);
}

fn one(id: &str, file: &str) {
    quiet_panics();
    let case = std::fs::read_to_string(file).expect("case file");
    let p = prop(id);
    // on a thread with the default stack, as in the exploration
    let r = std::thread::spawn(move || guarded(|| (p.one)(&case, &mut Stats::default()))).join();
    match r {
        Ok(Ok(Ok(()))) => {
            println!("holds");
            exit(0)
        }
        Ok(Ok(Err(b)) | Err(b)) => {
            println!("expected: {}\nobserved: {}", b.expected, b.observed);
            exit(1)
        }
        Err(_) => exit(1),
    }
}

fn work_dir(dir: &str) -> String {
    let w = format!("{dir}/build/run/{}", std::process::id());
    std::fs::create_dir_all(&w).expect("work dir");
    w
}

struct Found {
    build: String,
    space: String,
    case: String,
    expected: String,
    observed: String,
}

fn run(id: &str, dir: &str, bins: &[&str]) {
    let t0 = Instant::now();
    let p = prop(id);
    let bins: Vec<(&str, &str)> = bins.iter().filter_map(|b| b.split_once('=')).collect();
    let w = work_dir(dir);
    let _ = std::fs::remove_file(format!("{dir}/evidence/{id}.json"));
    let mut reports: Vec<(String, J)> = Vec::new();
    let mut found: Vec<Found> = Vec::new();
    for (name, bin) in &bins {
        if !p.builds.contains(name) {
            continue;
        }
        let slots = format!("{w}/slots");
        let out = format!("{w}/{name}.json");
        let mut crashes: Vec<String> = Vec::new();
        loop {
            let _ = std::fs::remove_file(&out);
            let st = Command::new(bin).args(["child", id, &slots, &out, dir]).status().expect("child");
            if st.success() {
                let t = std::fs::read_to_string(&out).unwrap_or_default();
                let Some(j) = json::parse(&t) else {
                    eprintln!("no report from {name}");
                    exit(2);
                };
                for v in j.get("violations").arr() {
                    found.push(Found {
                        build: name.to_string(),
                        space: v.get("space").str().into(),
                        case: v.get("case").str().into(),
                        expected: v.get("expected").str().into(),
                        observed: v.get("observed").str().into(),
                    });
                }
                reports.push((name.to_string(), j));
                break;
            }
            use std::os::unix::process::ExitStatusExt;
            let Some(sig) = st.signal() else {
                eprintln!("{name} ended with {st}");
                exit(2);
            };
            // It was killed: by a case which was in progress?
            let in_flight = read_slots(&slots);
            let mut culprit = None;
            for c in &in_flight {
                let f = format!("{w}/case");
                std::fs::write(&f, c).unwrap();
                let st = Command::new("timeout").args(["-s", "KILL", "60", bin, "one", id, &f]).output().expect("one");
                if !st.status.success() && st.status.code() != Some(2) {
                    culprit = Some((c.clone(), st.status));
                    break;
                }
            }
            if let Some((c, st)) = culprit {
                found.push(Found {
                    build: name.to_string(),
                    space: String::new(),
                    case: c,
                    expected: "an answer".into(),
                    observed: format!("the process ended with {st}"),
                });
                break;
            }
            if sig == 9 || sig == 15 {
                eprintln!("{name} was ended with {st}");
                exit(2);
            }
            crashes.push(in_flight.first().cloned().unwrap_or_default());
            if crashes.len() == 2 {
                // Not from a single case, but again
                found.push(Found {
                    build: name.to_string(),
                    space: String::new(),
                    case: crashes.pop().unwrap(),
                    expected: "an answer".into(),
                    observed: format!("the process of the exploration ended with signal {sig}, twice; this case was in progress but does not do so alone"),
                });
                break;
            }
        }
        if !found.is_empty() {
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(&p, dir, &reports, found.len(), wall);
    let mut known: Vec<String> = Vec::new();
    for (_, j) in &reports {
        for k in j.get("known").arr() {
            if !known.contains(&k.str().to_owned()) {
                known.push(k.str().to_owned());
            }
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={id} {}", json::s(k));
    }
    for (b, j) in &reports {
        println!(
            "{id} {b}: {} states, {} transitions, {} traces, {} violations",
            j.get("states").num(), j.get("transitions").num(), j.get("traces").num(), j.get("violations").arr().len()
        );
    }
    let _ = std::fs::remove_dir_all(&w);
    if let Some(f) = found.first() {
        let path = save(&p, dir, f);
        println!("space: {}\ncase: {}\nexpected: {}\nobserved: {}", f.space, json::s(&p_text::short(&f.case)), p_text::short(&f.expected), p_text::short(&f.observed));
        println!("VIOLATION property={id} replay={path}");
        exit(1);
    }
    println!("{id}: held on everything explored, {wall:.1} s");
}

fn save(p: &Prop, dir: &str, f: &Found) -> String {
    let d = format!("{dir}/replays");
    std::fs::create_dir_all(&d).expect("replays");
    let mut h = std::hash::DefaultHasher::new();
    use std::hash::{Hash, Hasher};
    f.case.hash(&mut h);
    let base = format!("{d}/{}-{:016x}", p.id, h.finish());
    let path = format!("{base}.json");
    let body = format!(
        "{{\n \"property\": {},\n \"build\": {},\n \"space\": {},\n \"case\": {},\n \"expected\": {},\n \"observed\": {}\n}}\n",
        json::s(p.id), json::s(&f.build), json::s(&f.space), json::s(&f.case), json::s(&f.expected), json::s(&f.observed)
    );
    std::fs::write(&path, body).expect("replay");
    if f.case.len() < 100_000 {
        if let Ok(t) = guarded(|| (p.test)(&f.case)) {
            if !t.is_empty() {
                let _ = std::fs::write(format!("{base}.rs"), format!("// expected: {}\n// observed: {}\n#[test]\nfn {}() {{\n    {t}\n}}\n",
                    f.expected.replace('\n', " "), f.observed.replace('\n', " "), p.id.to_lowercase()));
            }
        }
    }
    path
}

fn replay(file: &str, bins: &[&str]) {
    let j = json::parse(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let bins: BTreeMap<&str, &str> = bins.iter().filter_map(|b| b.split_once('=')).collect();
    let f = format!("{file}.case");
    std::fs::write(&f, j.get("case").str()).unwrap();
    let bin = bins.get(j.get("build").str()).or(bins.values().next()).expect("a binary");
    let st = Command::new(bin).args(["one", j.get("property").str(), &f]).status().expect("one");
    let _ = std::fs::remove_file(&f);
    println!("{st}");
    exit(if st.success() { 0 } else { 1 });
}

fn evidence(p: &Prop, dir: &str, reports: &[(String, J)], violations: usize, wall: f64) {
    let sum = |k: &str| reports.iter().map(|(_, j)| j.get(k).num() as u64).sum::<u64>();
    // the builds run the same model
    let max = |k: &str| reports.iter().map(|(_, j)| j.get(k).num() as u64).max().unwrap_or(0);
    let mut samples: Vec<String> = Vec::new();
    for (_, j) in reports {
        for s in j.get("samples").arr() {
            if samples.len() < 40 && !samples.contains(&s.text()) {
                samples.push(s.text());
            }
        }
    }
    let tier = if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let per: Vec<String> = reports
        .iter()
        .map(|(n, j)| {
            format!("{}: {{\"spaces\": {}, \"outcomes\": {}, \"notes\": {}}}", json::s(n), j.get("spaces").text(), j.get("outcomes").text(), j.get("notes").text())
        })
        .collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"builds\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        json::s(p.id), max("states"), sum("transitions"), sum("traces"), violations == 0, samples.join(", "), per.join(", "),
        p.assumptions.iter().map(|s| json::s(s)).collect::<Vec<_>>().join(", "),
    );
    std::fs::create_dir_all(format!("{dir}/evidence")).expect("evidence");
    std::fs::write(format!("{dir}/evidence/{}.json", p.id), body).expect("evidence");
}
