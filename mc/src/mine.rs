//! Words, characters and numbers written in the sources under check, as further inputs: what is
//! special about one word or number tends to be written there. Nothing is judged by them.

use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::LazyLock;

#[derive(Default)]
pub struct Mine {
    /// literals of strings and characters, without interpolation
    pub words: Vec<String>,
    /// identifiers, which may be turned into text by macros
    pub idents: Vec<String>,
    pub numbers: Vec<u64>,
}

fn files(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(l) = std::fs::read_dir(d) else { return };
    let mut l: Vec<PathBuf> = l.filter_map(|e| e.ok()).map(|e| e.path()).collect();
    l.sort();
    for p in l {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") && p.file_name().is_none_or(|n| n != "builtins.rs") {
            out.push(p);
        }
    }
}

/// The sources of the library, and of the update tool
fn of(dirs: &[&str]) -> Mine {
    let mut f = Vec::new();
    for d in dirs {
        files(Path::new(d), &mut f);
    }
    let (mut w, mut i, mut n) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for p in f {
        if let Ok(t) = std::fs::read_to_string(&p) {
            scan(&t, &mut w, &mut i, &mut n);
        }
    }
    // parts of longer texts, such as messages
    for x in w.clone() {
        if x.len() > 24 {
            w.remove(&x);
            w.extend(x.split_whitespace().filter(|p| p.len() <= 24).map(str::to_owned));
        }
    }
    w.remove("");
    Mine { words: w.into_iter().collect(), idents: i.into_iter().collect(), numbers: n.into_iter().collect() }
}

pub static LIB: LazyLock<Mine> = LazyLock::new(|| of(&["/repo/src"]));
pub static TOOL: LazyLock<Mine> = LazyLock::new(|| of(&["/repo/update/src"]));

impl Mine {
    pub fn note(&self) -> String {
        format!("{} words, {} identifiers and {} numbers of the sources are among the inputs", self.words.len(), self.idents.len(), self.numbers.len())
    }
    /// Numbers which can be a count
    pub fn counts(&self, max: u64) -> Vec<usize> {
        let mut s: BTreeSet<usize> = BTreeSet::new();
        for n in &self.numbers {
            for d in [n.wrapping_sub(1), *n, n + 1, n * 2, n * 2 + 1] {
                if d <= max {
                    s.insert(d as usize);
                }
            }
        }
        s.into_iter().collect()
    }
}

fn scan(t: &str, words: &mut BTreeSet<String>, idents: &mut BTreeSet<String>, numbers: &mut BTreeSet<u64>) {
    let c: Vec<char> = t.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let word = |x: char| x.is_alphanumeric() || x == '_';
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x == '"' {
            let (s, n) = string(&c, i + 1, '"');
            words.insert(s);
            i = n;
        } else if x == 'r' && (at(i + 1) == '"' || at(i + 1) == '#') && (i == 0 || !word(c[i - 1]) || c[i - 1] == 'b') {
            let mut h = 0;
            while at(i + 1 + h) == '#' {
                h += 1;
            }
            if at(i + 1 + h) != '"' {
                // a raw identifier
                i += 1 + h;
                continue;
            }
            let from = i + 2 + h;
            let mut j = from;
            while j < c.len() && !(c[j] == '"' && (0..h).all(|k| at(j + 1 + k) == '#')) {
                j += 1;
            }
            words.insert(c[from.min(c.len())..j].iter().collect());
            i = j + 1 + h;
        } else if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' || at(i + 2) == '\'' {
                let (s, n) = string(&c, i + 1, '\'');
                words.insert(s);
                i = n;
            } else {
                i += 1;
            }
        } else if x.is_ascii_digit() {
            let mut j = i;
            while j < c.len() && word(c[j]) {
                j += 1;
            }
            let s: String = c[i..j].iter().filter(|x| **x != '_').collect();
            i = j;
            let (digits, radix) = match s.get(..2) {
                Some("0x") => (&s[2..], 16),
                Some("0b") => (&s[2..], 2),
                Some("0o") => (&s[2..], 8),
                _ => (&s[..], 10),
            };
            let end = digits.find(|x: char| !x.is_digit(radix)).unwrap_or(digits.len());
            if let Ok(n) = u64::from_str_radix(&digits[..end], radix) {
                if n < 1 << 40 {
                    numbers.insert(n);
                }
                // a code may be that of a character
                if let (16, Some(x)) = (radix, u32::try_from(n).ok().and_then(char::from_u32)) {
                    words.insert(x.to_string());
                }
            }
        } else if word(x) {
            let mut j = i;
            while j < c.len() && word(c[j]) {
                j += 1;
            }
            // b"..", c"..", and raw ones
            if !(j - i <= 2 && matches!(at(j), '"' | '\'')) {
                idents.insert(c[i..j].iter().collect());
            } else if c[j - 1] == 'r' {
                i = j - 1;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

/// A literal up to its end, with escapes resolved
fn string(c: &[char], mut i: usize, end: char) -> (String, usize) {
    let mut s = String::new();
    while i < c.len() && c[i] != end {
        if c[i] == '\\' && i + 1 < c.len() {
            i += 1;
            match c[i] {
                'n' => s.push('\n'),
                't' => s.push('\t'),
                'r' => s.push('\r'),
                '0' => s.push('\0'),
                'x' => {
                    let h: String = c[i + 1..(i + 3).min(c.len())].iter().collect();
                    s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    i += 2;
                }
                'u' => {
                    let h: String = c[i + 1..].iter().take_while(|x| **x != '}').filter(|x| **x != '{' && **x != '_').collect();
                    s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    while i < c.len() && c[i] != '}' {
                        i += 1;
                    }
                }
                '\n' => {
                    while i + 1 < c.len() && c[i + 1].is_whitespace() {
                        i += 1;
                    }
                }
                x => s.push(x),
            }
        } else {
            s.push(c[i]);
        }
        i += 1;
    }
    (s, i + 1)
}
