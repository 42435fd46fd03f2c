//! Texts with features in combination: a text is made from one value of each of 15 features, and
//! all texts are explored which differ from one of a few bases in at most so many of them. So each
//! choice of values for each so many features is met, with each base around it.

use crate::engine::Run;
use crate::texts::Each;

const WRAP: usize = 5;
const FUNCS: [&[&str]; 6] = [&["all"], &["any"], &["not"], &["all", "any"], &["not", "all"], &["any", "not", "all"]];
const DEPTHS: [usize; 9] = [0, 1, 2, 4, 5, 6, 9, 17, 33];
const SIBLINGS: usize = 5;
const BEFORE: [usize; 11] = [0, 1, 2, 4, 5, 6, 8, 9, 16, 17, 33];
const AFTER: [usize; 5] = [0, 1, 4, 5, 9];
const KINDS: [&str; 11] = ["a", "k|=|\"v\"", "feature|=|\"f\"", "target_os|=|\"linux\"", "any|(|)", "not|(|b|)", "all|(|c|,|d|)", "windows", "n#", "k#|=|\"v#\"", ""];
const FOCUS: [&str; 22] = [
    "a", "k|=", "feature|=", "target_os|=", "target_family|=", "unix", "test", "proc_macro", "target_has_atomic|=", "target_pointer_width|=", "target_endian|=",
    "panic|=", "target_feature|=", "target_vendor|=", "target_foo|=", "all|(|)", "not|(|not|(|z|)|)", "xxxxxxxxxxxxxxxx", "_", "\u{e9}t\u{e9}", "target_arch|=", "features|=",
];
const VALUES: [&str; 20] = [
    "a", "", "macos", "linux", "64", "little", "065", "xxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxx", "@64", "@255", "@256", "@1000", "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}",
    "\u{1f980}", " a ", "),(", "all(a, b = c)", "\u{2003}\t",
];
const WHITE: [&str; 7] = ["", " ", "\n", "\t\r", "\u{2003}", "\u{85}", "                 "];
const COMMAS: usize = 3;
const DUPS: usize = 3;
const ERRORS: [&str; 14] = ["", ",", "=", ")", "(", "\"v\"", "e", "all", "not", "$", "\"", "-delete", "= \"v\"", ") ,"];
const PLACES: usize = 4;
const PADS: [usize; 5] = [0, 31, 62, 260, 4100];

pub const N: usize = 15;
pub const SIZES: [usize; N] = [
    WRAP, FUNCS.len(), DEPTHS.len(), SIBLINGS, BEFORE.len(), AFTER.len(), KINDS.len(), FOCUS.len(), VALUES.len(), WHITE.len(), COMMAS, DUPS, ERRORS.len(), PLACES, PADS.len(),
];
type Choice = [u8; N];
/// A lone flag; a nested list of flags; pairs within lists with operands around, wrapped; one with an error
const BASES: [Choice; 4] = [
    [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 3, 4, 0, 4, 1, 8, 1, 0, 1, 0, 0, 0, 0, 0],
    [1, 5, 2, 3, 1, 2, 9, 4, 3, 0, 1, 1, 0, 1, 1],
    [0, 4, 3, 2, 2, 0, 10, 1, 14, 0, 0, 0, 6, 2, 0],
];
const ERROR_FEATURES: [usize; 2] = [12, 13];

pub fn text(c: &Choice) -> String {
    let at = |f: usize| c[f] as usize;
    let mut toks: Vec<String> = Vec::new();
    let mut nth = 0usize;
    let operand = |toks: &mut Vec<String>, nth: &mut usize| {
        let k = match at(6) {
            10 => KINDS[*nth % 10],
            k => KINDS[k],
        };
        toks.extend(k.split('|').map(|t| t.replace('#', &nth.to_string())));
        *nth += 1;
    };
    let mut focus: Vec<String> = FOCUS[at(7)].split('|').map(String::from).collect();
    if focus.last().is_some_and(|t| t == "=") {
        focus.push(match VALUES[at(8)].strip_prefix('@') {
            Some(n) => format!("\"{}\"", "y".repeat(n.parse().expect("length"))),
            None => format!("\"{}\"", VALUES[at(8)]),
        });
    }
    let funcs = FUNCS[at(1)];
    let depth = DEPTHS[at(2)];
    for d in 0..depth {
        // the innermost function is the first of its list, whatever the depth
        toks.extend([funcs[(depth - 1 - d) % funcs.len()].to_owned(), "(".into()]);
        if d == 0 && PADS[at(14)] > 0 {
            toks.extend(["p".repeat(PADS[at(14)]), ",".into()]);
        }
        if d == 0 && at(11) == 2 {
            toks.extend(focus.iter().cloned());
            toks.push(",".into());
        }
        if d + 1 < depth {
            match at(3) {
                1 | 3 => toks.extend([format!("s{d}"), ",".into()]),
                4 => toks.extend(["any", "(", ")", ","].map(String::from)),
                _ => {}
            }
        }
    }
    for _ in 0..BEFORE[at(4)] {
        operand(&mut toks, &mut nth);
        toks.push(",".into());
    }
    let here = toks.len();
    toks.extend(focus.iter().cloned());
    if at(11) == 1 {
        toks.push(",".into());
        toks.extend(focus.iter().cloned());
    }
    let after = toks.len();
    for _ in 0..AFTER[at(5)] {
        toks.push(",".into());
        operand(&mut toks, &mut nth);
    }
    for d in (0..depth).rev() {
        if d + 1 < depth && matches!(at(3), 2 | 3) {
            toks.extend([",".to_owned(), format!("t{d}"), "=".into(), "\"u\"".into()]);
        }
        if at(10) == 2 || at(10) == 1 && d + 1 == depth {
            toks.push(",".into());
        }
        toks.push(")".into());
    }
    let place = [here, here + 1, after, toks.len()][at(13)];
    match ERRORS[at(12)] {
        "" => {}
        "-delete" => {
            toks.remove(place.min(toks.len() - 1));
        }
        e => toks.insert(place, e.to_owned()),
    }
    let white = WHITE[at(9)];
    let mut s = String::new();
    for t in &toks {
        if !s.is_empty() {
            s.push_str(white);
            let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
            if white.is_empty() && word(s.chars().last()) && word(t.chars().next()) {
                s.push(' ');
            }
        }
        s.push_str(t);
    }
    match at(0) {
        1 => format!("cfg({s})"),
        2 => format!("{white} {s} {white}"),
        3 => format!("cfg({white} {s} {white})"),
        4 => format!(" cfg({s})"),
        _ => s,
    }
}

/// The texts which differ from a base in one feature, without an error
pub fn few() -> Vec<String> {
    let mut v = Vec::new();
    for b in &BASES[..3] {
        for f in (0..N).filter(|f| !ERROR_FEATURES.contains(f)) {
            for x in 0..SIZES[f] as u8 {
                let mut c = *b;
                c[f] = x;
                v.push(text(&c));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// All texts which differ from a base in at most `strength` features
pub fn explore(r: &mut Run, strength: usize, errors: bool, each: Each<'_>) {
    let fs: Vec<usize> = (0..N).filter(|f| errors || !ERROR_FEATURES.contains(f)).collect();
    // the features which differ, with the value of the first
    let mut items: Vec<(usize, Vec<usize>, u8)> = Vec::new();
    for base in 0..if errors { 4 } else { 3 } {
        for set in 0u32..1 << fs.len() {
            if set.count_ones() as usize > strength {
                continue;
            }
            let set: Vec<usize> = fs.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, f)| *f).collect();
            match set.first() {
                None => items.push((base, set, 0)),
                Some(f) => items.extend((0..SIZES[*f] as u8).filter(|v| *v != BASES[base][*f]).map(|v| (base, set.clone(), v))),
            }
        }
    }
    let name = format!("up to {strength} of {} features in combination", fs.len());
    r.space(&name, items.len() as u64, |i, ctx| {
        let (base, set, first) = &items[i as usize];
        let mut c = BASES[*base];
        if let Some(f) = set.first() {
            c[*f] = *first;
        }
        let rest = if set.is_empty() { &[][..] } else { &set[1..] };
        let total: usize = rest.iter().map(|f| SIZES[*f] - 1).product();
        for mut n in 0..total {
            for f in rest {
                let m = SIZES[*f] - 1;
                let v = (n % m) as u8;
                c[*f] = v + u8::from(v >= BASES[*base][*f]);
                n /= m;
            }
            each(ctx, &text(&c));
        }
    });
}
