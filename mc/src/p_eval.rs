//! P07 to P09: the value of expressions, in boolean, three-valued and free logics. The oracle
//! folds the tree of the reference model; expressions are all small trees, swept widths and
//! depths, and the spaces of texts.

use crate::engine::*;
use crate::model::{self, Ast, F, P};
use crate::p_text::short;
use crate::texts;
use cfg_expr::Expression;
use cfg_expr::expr::Logic;
use std::collections::HashMap;

// ---- trees ------------------------------------------------------------------------------

/// Numbers of trees and of lists of trees by their total number of nodes
pub struct Trees {
    t: Vec<u64>,
    f: Vec<u64>,
}

impl Trees {
    pub fn new(max: usize) -> Self {
        let mut t = vec![0u64, 3];
        let mut f = vec![1u64, 3];
        for n in 2..=max {
            t.push(t[n - 1] + 2 * f[n - 1]);
            f.push((1..=n).map(|k| t[k] * f[n - k]).sum());
        }
        Trees { t, f }
    }
    pub fn count(&self, n: usize) -> u64 {
        self.t[n]
    }
    /// The tree of n nodes with the given number, leaves are numbered
    pub fn text(&self, n: usize, r: u64, rot: usize) -> String {
        let mut s = String::new();
        let mut leaves = 0;
        self.tree(n, r, rot, &mut leaves, &mut s);
        s
    }
    fn tree(&self, n: usize, mut r: u64, rot: usize, l: &mut usize, s: &mut String) {
        if n == 1 {
            match r {
                0 => {
                    leaf_text(*l, rot, s);
                    *l += 1;
                }
                1 => s.push_str("all()"),
                _ => s.push_str("any()"),
            }
            return;
        }
        if r < self.t[n - 1] {
            s.push_str("not(");
            self.tree(n - 1, r, rot, l, s);
            s.push(')');
            return;
        }
        r -= self.t[n - 1];
        s.push_str(if r < self.f[n - 1] { "all(" } else { "any(" });
        self.forest(n - 1, r % self.f[n - 1], rot, l, s);
        s.push(')');
    }
    fn forest(&self, mut m: usize, mut r: u64, rot: usize, l: &mut usize, s: &mut String) {
        let mut first = true;
        while m > 0 {
            if !first {
                s.push(',');
            }
            first = false;
            for k in 1..=m {
                let c = self.t[k] * self.f[m - k];
                if r < c {
                    self.tree(k, r / self.f[m - k], rot, l, s);
                    r %= self.f[m - k];
                    m -= k;
                    break;
                }
                r -= c;
            }
        }
    }
}

/// Instead of a rotation: leaves are left open
const HOLES: usize = usize::MAX;

/// All ways to fill the holes in which at least two are the same, up to renaming
fn repeated(t: &str, rot: usize, f: &mut dyn FnMut(&str)) {
    let parts: Vec<&str> = t.split('\u{1}').collect();
    let n = parts.len() - 1;
    let mut a = vec![0usize; n];
    fn go(a: &mut Vec<usize>, i: usize, used: usize, f: &mut dyn FnMut(&[usize])) {
        if i == a.len() {
            if used < i {
                f(a);
            }
            return;
        }
        for x in 0..=used {
            a[i] = x;
            go(a, i + 1, used.max(x + 1), f);
        }
    }
    go(&mut a, 0, 0, &mut |a| {
        let mut s = String::from(parts[0]);
        for (x, p) in a.iter().zip(&parts[1..]) {
            leaf_text(*x, rot, &mut s);
            s.push_str(p);
        }
        f(&s);
    });
}

/// Distinct predicates of all kinds
fn leaf_text(i: usize, rot: usize, s: &mut String) {
    use std::fmt::Write;
    if rot == HOLES {
        s.push('\u{1}');
        return;
    }
    match (i + rot) % 8 {
        0 => write!(s, "a{i}"),
        1 => write!(s, "k{i}=\"v\""),
        2 => write!(s, "feature=\"f{i}\""),
        3 => write!(s, "target_os=\"o{i}\""),
        4 => write!(s, "target_feature=\"t{i}\""),
        5 => write!(s, "target_pointer_width=\"{}\"", i % 256),
        6 => write!(s, "target_has_atomic=\"{}\"", i % 65536),
        _ => write!(s, "panic=\"p{i}\""),
    }
    .unwrap();
}

// ---- variables --------------------------------------------------------------------------

/// The distinct predicates of an expression are its variables
pub struct Vars {
    pub of_leaf: Vec<u32>,
    pub map: HashMap<P, u32>,
}

impl Vars {
    pub fn new(ast: &Ast) -> Self {
        let mut map = HashMap::new();
        let of_leaf = ast
            .preds
            .iter()
            .map(|p| {
                let n = map.len() as u32;
                *map.entry(p.clone()).or_insert(n)
            })
            .collect();
        Vars { of_leaf, map }
    }
    pub fn n(&self) -> usize {
        self.map.len()
    }
    /// The variable of a predicate which the implementation passes, if it is one of the text
    pub fn of(&self, p: &cfg_expr::Predicate<'_>) -> Option<u32> {
        self.map.get(&model::from_impl(p)).copied()
    }
}

/// Positions to look at closely among n
fn positions(n: usize) -> Vec<usize> {
    if n <= 600 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = vec![0, 1, 2, n / 2, n - 1, n - 2, n - 3];
    for p in 2..20 {
        for d in 0..3 {
            let x = (1usize << p) + d;
            if x >= 1 && x - 1 < n {
                v.push(x - 1);
            }
            if x <= n {
                v.push(n - x);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Assignments of one of `k` values to each of n variables: all of them if they are few,
/// otherwise the uniform ones, and those with one variable which differs.
fn assignments(n: usize, k: u8, full: usize) -> Vec<Assignment> {
    let mut out = Vec::new();
    if n <= full {
        let total = (k as u64).pow(n as u32);
        for i in 0..total {
            let mut d = i;
            out.push(Assignment::Full(
                (0..n)
                    .map(|_| {
                        let x = (d % k as u64) as u8;
                        d /= k as u64;
                        x
                    })
                    .collect(),
            ));
        }
    } else {
        for b in 0..k {
            out.push(Assignment::One(b, usize::MAX, b));
        }
        for p in positions(n) {
            for b in 0..k {
                for v in 0..k {
                    if v != b {
                        out.push(Assignment::One(b, p, v));
                    }
                }
            }
        }
        for m in 2..=3 {
            for b in 0..k {
                out.push(Assignment::Every(b, m, (b + 1) % k));
            }
        }
    }
    out
}

#[derive(Clone, Debug)]
enum Assignment {
    Full(Vec<u8>),
    /// all have the first value, but one
    One(u8, usize, u8),
    /// all have the first value, but every m-th
    Every(u8, usize, u8),
}

impl Assignment {
    fn get(&self, i: u32) -> u8 {
        let i = i as usize;
        match self {
            Assignment::Full(v) => v[i],
            Assignment::One(b, p, v) => {
                if i == *p { *v } else { *b }
            }
            Assignment::Every(b, m, v) => {
                if i % m == 0 { *v } else { *b }
            }
        }
    }
    fn show(&self, vars: &Vars, names: &[&str]) -> String {
        if vars.n() > 12 {
            return format!("{self:?}");
        }
        let mut v: Vec<(&P, u32)> = vars.map.iter().map(|(p, i)| (p, *i)).collect();
        v.sort_by_key(|x| x.1);
        v.iter().map(|(p, i)| format!("{p:?} = {}", names[self.get(*i) as usize])).collect::<Vec<_>>().join(", ")
    }
}

// ---- P07: booleans ----------------------------------------------------------------------

/// 64 assignments at once
#[derive(Debug)]
struct Lanes(u64);

impl Logic for Lanes {
    fn top() -> Self {
        Lanes(!0)
    }
    fn bottom() -> Self {
        Lanes(0)
    }
    fn and(self, o: Self) -> Self {
        Lanes(self.0 & o.0)
    }
    fn or(self, o: Self) -> Self {
        Lanes(self.0 | o.0)
    }
    fn not(self) -> Self {
        Lanes(!self.0)
    }
}

fn setup(text: &str, st: &mut Stats) -> Option<(Ast, Vars, Expression)> {
    let ast = model::parse(model::strip(text), Some(&mut st.cover)).ok()?;
    // acceptance is P01
    let e = Expression::parse(text).ok()?;
    let vars = Vars::new(&ast);
    Some((ast, vars, e))
}

fn unknown_pred(p: &cfg_expr::Predicate<'_>) -> Bad {
    bad("predicates of the text", format!("{p:?}"))
}

const BOOL: [&str; 2] = ["false", "true"];

pub fn p07(text: &str, st: &mut Stats) -> Res {
    if text.starts_with("table") {
        return bool_table(text, st);
    }
    let Some((ast, vars, e)) = setup(text, st) else { return Ok(()) };
    let asg = assignments(vars.n(), 2, 8);
    let mut wrong: Option<Bad> = None;
    let mut tot = (0u64, 0u64);
    for batch in asg.chunks(64) {
        let used = if batch.len() == 64 { !0 } else { (1u64 << batch.len()) - 1 };
        let mut masks: Vec<u64> = vec![0; vars.n()];
        for (v, m) in masks.iter_mut().enumerate() {
            for (i, a) in batch.iter().enumerate() {
                *m |= u64::from(a.get(v as u32)) << i;
            }
        }
        let want = ast.fold(
            |l| masks[vars.of_leaf[l as usize] as usize],
            |f, v| match f {
                F::All => v.iter().fold(!0, |a, b| a & b),
                F::Any => v.iter().fold(0, |a, b| a | b),
                F::Not => !v[0],
            },
        ) & used;
        let got = e
            .eval(|p| match vars.of(p) {
                Some(v) => Lanes(masks[v as usize]),
                None => {
                    wrong = Some(unknown_pred(p));
                    Lanes(0)
                }
            })
            .0
            & used;
        if let Some(b) = wrong {
            return Err(b);
        }
        st.traces += 1;
        tot.0 |= want;
        tot.1 |= !want & used;
        if got != want {
            let i = (got ^ want).trailing_zeros() as usize;
            return Err(bad(
                format!("{} with {}", want >> i & 1 == 1, batch[i].show(&vars, &BOOL)),
                format!("{}", got >> i & 1 == 1),
            ));
        }
        // and with real booleans
        let some = if vars.n() <= 4 || ast.nodes.len() < 40 { batch.len() } else { batch.len().min(8) };
        for (i, a) in batch.iter().enumerate().take(some) {
            let got = e.eval(|p| vars.of(p).is_some_and(|v| a.get(v) == 1));
            st.traces += 1;
            if got != (want >> i & 1 == 1) {
                return Err(bad(
                    format!("{} with {}", want >> i & 1 == 1, a.show(&vars, &BOOL)),
                    format!("{got} (evaluating with bool)"),
                ));
            }
        }
    }
    st.outcome(match (tot.0 != 0, tot.1 != 0) {
        (true, true) => "true for some assignments, false for others",
        (true, false) => "true for all assignments",
        _ => "false for all assignments",
    });
    Ok(())
}

/// The operations of bool itself
fn bool_table(_: &str, st: &mut Stats) -> Res {
    let mut check = |what: &str, got: bool, want: bool| -> Res {
        st.traces += 1;
        if got == want { Ok(()) } else { Err(bad(format!("{what} is {want}"), got.to_string())) }
    };
    check("top", <bool as Logic>::top(), true)?;
    check("bottom", <bool as Logic>::bottom(), false)?;
    for a in [false, true] {
        check(&format!("not {a}"), Logic::not(a), !a)?;
        for b in [false, true] {
            check(&format!("{a} and {b}"), Logic::and(a, b), a & b)?;
            check(&format!("{a} or {b}"), Logic::or(a, b), a | b)?;
        }
    }
    Ok(())
}

// ---- P08: three values ------------------------------------------------------------------

/// 64 assignments of true, false or unknown at once: lanes which are true, and false
#[derive(Debug)]
struct Lanes3(u64, u64);

impl Logic for Lanes3 {
    fn top() -> Self {
        Lanes3(!0, 0)
    }
    fn bottom() -> Self {
        Lanes3(0, !0)
    }
    fn and(self, o: Self) -> Self {
        Lanes3(self.0 & o.0, self.1 | o.1)
    }
    fn or(self, o: Self) -> Self {
        Lanes3(self.0 | o.0, self.1 & o.1)
    }
    fn not(self) -> Self {
        Lanes3(self.1, self.0)
    }
}

const KLEENE: [&str; 3] = ["false", "true", "unknown"];

fn k3(v: u8) -> Option<bool> {
    match v {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    }
}

pub fn p08(text: &str, st: &mut Stats) -> Res {
    if text.starts_with("table") {
        return kleene_table(text, st);
    }
    let Some((ast, vars, e)) = setup(text, st) else { return Ok(()) };
    let asg = assignments(vars.n(), 3, 5);
    for batch in asg.chunks(64) {
        let mut masks: Vec<(u64, u64)> = vec![(0, 0); vars.n()];
        for (v, m) in masks.iter_mut().enumerate() {
            for (i, a) in batch.iter().enumerate() {
                match a.get(v as u32) {
                    0 => m.1 |= 1 << i,
                    1 => m.0 |= 1 << i,
                    _ => {}
                }
            }
        }
        let want = ast.fold(
            |l| masks[vars.of_leaf[l as usize] as usize],
            |f, v| match f {
                F::All => v.iter().fold((!0, 0), |a, b| (a.0 & b.0, a.1 | b.1)),
                F::Any => v.iter().fold((0, !0), |a, b| (a.0 | b.0, a.1 & b.1)),
                F::Not => (v[0].1, v[0].0),
            },
        );
        let got = e.eval(|p| {
            let (t, f) = vars.of(p).map_or((0, 0), |v| masks[v as usize]);
            Lanes3(t, f)
        });
        st.traces += 1;
        let val = |m: (u64, u64), i: usize| -> Option<bool> {
            if m.0 >> i & 1 == 1 {
                Some(true)
            } else if m.1 >> i & 1 == 1 {
                Some(false)
            } else {
                None
            }
        };
        let some = if vars.n() <= 4 || ast.nodes.len() < 40 { batch.len() } else { batch.len().min(8) };
        for (i, a) in batch.iter().enumerate() {
            let w = val(want, i);
            let g = val((got.0, got.1), i);
            if g != w {
                return Err(bad(format!("{w:?} with {}", a.show(&vars, &KLEENE)), format!("{g:?}")));
            }
            if i < some {
                let g = e.eval(|p| vars.of(p).and_then(|v| k3(a.get(v))));
                st.traces += 1;
                if g != w {
                    return Err(bad(
                        format!("{w:?} with {}", a.show(&vars, &KLEENE)),
                        format!("{g:?} (evaluating with Option<bool>)"),
                    ));
                }
                st.outcome(match w {
                    Some(true) => "true",
                    Some(false) => "false",
                    None => "unknown",
                });
            }
        }
    }
    Ok(())
}

fn kleene_table(_: &str, st: &mut Stats) -> Res {
    type K = Option<bool>;
    let mut check = |what: String, got: K, want: K| -> Res {
        st.traces += 1;
        if got == want { Ok(()) } else { Err(bad(format!("{what} is {want:?}"), format!("{got:?}"))) }
    };
    check("top".into(), <K as Logic>::top(), Some(true))?;
    check("bottom".into(), <K as Logic>::bottom(), Some(false))?;
    // as numbers, with unknown in the middle, and is the lesser and or the greater
    let num = |k: K| k.map_or(1, |b| if b { 2 } else { 0 });
    let back = |n: i32| [Some(false), None, Some(true)][n as usize];
    for a in [Some(false), None, Some(true)] {
        check(format!("not {a:?}"), Logic::not(a), back(2 - num(a)))?;
        for b in [Some(false), None, Some(true)] {
            check(format!("{a:?} and {b:?}"), Logic::and(a, b), back(num(a).min(num(b))))?;
            check(format!("{a:?} or {b:?}"), Logic::or(a, b), back(num(a).max(num(b))))?;
        }
    }
    Ok(())
}

// ---- P09: the free logic ----------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Top,
    Bottom,
    Var(u32),
    Not(u32),
    And(u32, u32),
    Or(u32, u32),
}

thread_local! {
    static TERMS: std::cell::RefCell<Vec<Op>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// A term of the free logic. It cannot be cloned, so each is used at most once.
#[derive(Debug)]
struct Term(u32);

fn op(o: Op) -> Term {
    TERMS.with(|t| {
        let mut t = t.borrow_mut();
        t.push(o);
        Term(t.len() as u32 - 1)
    })
}

impl Logic for Term {
    fn top() -> Self {
        op(Op::Top)
    }
    fn bottom() -> Self {
        op(Op::Bottom)
    }
    fn and(self, o: Self) -> Self {
        op(Op::And(self.0, o.0))
    }
    fn or(self, o: Self) -> Self {
        op(Op::Or(self.0, o.0))
    }
    fn not(self) -> Self {
        op(Op::Not(self.0))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Nf {
    Var(u32),
    Not(u32),
    And(Vec<u32>),
    Or(Vec<u32>),
}

/// Normal forms modulo associativity, commutativity and neutral elements
#[derive(Default)]
struct Forms {
    ids: HashMap<Nf, u32>,
    all: Vec<Nf>,
}

impl Forms {
    fn id(&mut self, n: Nf) -> u32 {
        if let Some(i) = self.ids.get(&n) {
            return *i;
        }
        self.all.push(n.clone());
        self.ids.insert(n, self.all.len() as u32 - 1);
        self.all.len() as u32 - 1
    }

    fn list(&mut self, and: bool, operands: &[u32]) -> u32 {
        let mut v = Vec::with_capacity(operands.len());
        for o in operands {
            match (&self.all[*o as usize], and) {
                (Nf::And(x), true) | (Nf::Or(x), false) => v.extend_from_slice(x),
                _ => v.push(*o),
            }
        }
        if v.len() == 1 {
            return v[0];
        }
        v.sort_unstable();
        self.id(if and { Nf::And(v) } else { Nf::Or(v) })
    }

    /// terms come before those which use them
    fn of_terms(&mut self, t: &[Op], root: u32) -> u32 {
        let mut inner = vec![false; t.len()];
        for o in t {
            match o {
                Op::And(a, b) => {
                    for x in [*a, *b] {
                        inner[x as usize] = matches!(t[x as usize], Op::And(..) | Op::Top);
                    }
                }
                Op::Or(a, b) => {
                    for x in [*a, *b] {
                        inner[x as usize] = matches!(t[x as usize], Op::Or(..) | Op::Bottom);
                    }
                }
                _ => {}
            }
        }
        let mut nf = vec![u32::MAX; t.len()];
        for i in 0..=root as usize {
            if inner[i] {
                continue;
            }
            nf[i] = match t[i] {
                Op::Top => self.id(Nf::And(vec![])),
                Op::Bottom => self.id(Nf::Or(vec![])),
                Op::Var(v) => self.id(Nf::Var(v)),
                Op::Not(x) => {
                    let x = nf[x as usize];
                    self.id(Nf::Not(x))
                }
                Op::And(..) | Op::Or(..) => {
                    let and = matches!(t[i], Op::And(..));
                    let mut todo = vec![i as u32];
                    let mut ops = Vec::new();
                    while let Some(x) = todo.pop() {
                        match (t[x as usize], and) {
                            (Op::And(a, b), true) | (Op::Or(a, b), false) => todo.extend([a, b]),
                            (Op::Top, true) | (Op::Bottom, false) => {}
                            _ => ops.push(nf[x as usize]),
                        }
                    }
                    self.list(and, &ops)
                }
            };
        }
        nf[root as usize]
    }

    fn show(&self, id: u32, depth: usize) -> String {
        if depth > 8 {
            return "..".into();
        }
        let list = |v: &Vec<u32>, s: &str| format!("{s}[{}]", v.iter().take(12).map(|x| self.show(*x, depth + 1)).collect::<Vec<_>>().join(" "));
        match &self.all[id as usize] {
            Nf::Var(v) => format!("p{v}"),
            Nf::Not(x) => format!("not[{}]", self.show(*x, depth + 1)),
            Nf::And(v) if v.is_empty() => "top".into(),
            Nf::Or(v) if v.is_empty() => "bottom".into(),
            Nf::And(v) => list(v, "and"),
            Nf::Or(v) => list(v, "or"),
        }
    }
}

pub fn p09(text: &str, st: &mut Stats) -> Res {
    let Some((ast, vars, e)) = setup(text, st) else { return Ok(()) };
    let mut forms = Forms::default();
    let want = {
        let terms = std::cell::RefCell::new(vec![Op::Top, Op::Bottom]);
        let push = |o: Op| {
            let mut t = terms.borrow_mut();
            t.push(o);
            t.len() as u32 - 1
        };
        let root = ast.fold(
            |l| push(Op::Var(vars.of_leaf[l as usize])),
            |k, v| match k {
                F::All => v.iter().fold(push(Op::Top), |a, b| push(Op::And(a, *b))),
                F::Any => v.iter().fold(push(Op::Bottom), |a, b| push(Op::Or(a, *b))),
                F::Not => push(Op::Not(v[0])),
            },
        );
        forms.of_terms(&terms.into_inner(), root)
    };
    TERMS.with(|t| t.borrow_mut().clear());
    let mut calls = vec![0u32; vars.n()];
    let mut wrong: Option<String> = None;
    let got = e.eval(|p| match vars.of(p) {
        Some(v) => {
            calls[v as usize] += 1;
            op(Op::Var(v))
        }
        None => {
            wrong = Some(format!("{p:?}"));
            op(Op::Top)
        }
    });
    st.traces += 1;
    if let Some(p) = wrong {
        return Err(bad("calls with the written predicates", format!("called with {p}")));
    }
    let mut occurs = vec![0u32; vars.n()];
    for v in &vars.of_leaf {
        occurs[*v as usize] += 1;
    }
    if calls != occurs {
        return Err(bad(
            format!("one call per written predicate: {}", short(&format!("{occurs:?}"))),
            format!("{}", short(&format!("{calls:?}"))),
        ));
    }
    let got = TERMS.with(|t| forms.of_terms(&t.borrow(), got.0));
    st.outcome(match &forms.all[want as usize] {
        Nf::Var(_) => "a predicate",
        Nf::Not(_) => "a negation",
        Nf::And(v) if v.is_empty() => "top",
        Nf::Or(v) if v.is_empty() => "bottom",
        Nf::And(_) => "a conjunction",
        Nf::Or(_) => "a disjunction",
    });
    if got != want {
        return Err(bad(short(&forms.show(want, 0)), short(&forms.show(got, 0))));
    }
    other_logics(text, &ast, &vars, &e, &occurs, &mut forms, want, st)
}

/// A free logic of another size, which prints itself as something else
struct Posing<const D: usize, S>(u32, #[allow(dead_code)] S);

const POSES: [&str; 5] = ["false", "true", "None", "Some(false)", "Some(true)"];

impl<const D: usize, S> std::fmt::Debug for Posing<D, S> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(POSES[D])
    }
}

impl<const D: usize, S: Default> Logic for Posing<D, S> {
    fn top() -> Self {
        Self(op(Op::Top).0, S::default())
    }
    fn bottom() -> Self {
        Self(op(Op::Bottom).0, S::default())
    }
    fn and(self, o: Self) -> Self {
        Self(op(Op::And(self.0, o.0)).0, S::default())
    }
    fn or(self, o: Self) -> Self {
        Self(op(Op::Or(self.0, o.0)).0, S::default())
    }
    fn not(self) -> Self {
        Self(op(Op::Not(self.0)).0, S::default())
    }
}

/// A logic of no size, which only counts
#[derive(Debug)]
struct Nothing;

thread_local! {
    // how many and, or and not
    static OPS: std::cell::Cell<[usize; 3]> = const { std::cell::Cell::new([0; 3]) };
}

fn count_op(i: usize) {
    OPS.with(|n| {
        let mut v = n.get();
        v[i] += 1;
        n.set(v);
    });
}

impl Logic for Nothing {
    fn top() -> Self {
        Nothing
    }
    fn bottom() -> Self {
        Nothing
    }
    fn and(self, _: Self) -> Self {
        count_op(0);
        Nothing
    }
    fn or(self, _: Self) -> Self {
        count_op(1);
        Nothing
    }
    fn not(self) -> Self {
        count_op(2);
        Nothing
    }
}

/// A logic of one byte: eight boolean values
#[derive(Debug, PartialEq)]
struct Byte(u8);

impl Logic for Byte {
    fn top() -> Self {
        Byte(0xff)
    }
    fn bottom() -> Self {
        Byte(0)
    }
    fn and(self, o: Self) -> Self {
        Byte(self.0 & o.0)
    }
    fn or(self, o: Self) -> Self {
        Byte(self.0 | o.0)
    }
    fn not(self) -> Self {
        Byte(!self.0)
    }
}

/// Evaluates, with the same value for each predicate, and compares the calls
fn counted<T: Logic + std::fmt::Debug>(what: &str, vars: &Vars, e: &Expression, occurs: &[u32], mut value: impl FnMut(u32) -> T) -> Result<T, Bad> {
    let mut calls = vec![0u32; vars.n()];
    let mut wrong = None;
    let got = e.eval(|p| match vars.of(p) {
        Some(v) => {
            calls[v as usize] += 1;
            value(v)
        }
        None => {
            wrong = Some(format!("{p:?}"));
            T::top()
        }
    });
    if let Some(p) = wrong {
        return Err(bad("calls with the written predicates", format!("called with {p} ({what})")));
    }
    if calls != occurs {
        return Err(bad(
            format!("one call per written predicate: {}", short(&format!("{occurs:?}"))),
            format!("{} ({what})", short(&format!("{calls:?}"))),
        ));
    }
    Ok(got)
}

fn posing<const D: usize, S: Default>(vars: &Vars, e: &Expression, occurs: &[u32], forms: &mut Forms, want: u32) -> Res {
    TERMS.with(|t| t.borrow_mut().clear());
    let what = format!("for a logic which prints itself as {}, of {} bytes", POSES[D], size_of::<Posing<D, S>>());
    let got = counted(&what, vars, e, occurs, |v| Posing::<D, S>(op(Op::Var(v)).0, S::default()))?;
    let got = TERMS.with(|t| forms.of_terms(&t.borrow(), got.0));
    if got != want {
        return Err(bad(short(&forms.show(want, 0)), format!("{} {what}", short(&forms.show(got, 0)))));
    }
    Ok(())
}

/// What is known of the logic must make no difference: its values, size and printed form
#[allow(clippy::too_many_arguments)]
fn other_logics(text: &str, ast: &Ast, vars: &Vars, e: &Expression, occurs: &[u32], forms: &mut Forms, want: u32, st: &mut Stats) -> Res {
    for b in [false, true] {
        counted(&format!("all of them {b}"), vars, e, occurs, |_| b)?;
        counted(&format!("all of them Some({b})"), vars, e, occurs, |_| Some(b))?;
        counted(&format!("every other one {b}"), vars, e, occurs, |v| (v % 2 == 0) == b)?;
    }
    counted("all of them None", vars, e, occurs, |_| None::<bool>)?;
    st.traces += 7;
    if vars.n() > 64 {
        return Ok(());
    }
    posing::<0, ()>(vars, e, occurs, forms, want)?;
    posing::<1, Box<u8>>(vars, e, occurs, forms, want)?;
    posing::<2, [u64; 16]>(vars, e, occurs, forms, want)?;
    posing::<3, u16>(vars, e, occurs, forms, want)?;
    posing::<4, String>(vars, e, occurs, forms, want)?;
    OPS.with(|n| n.set([0; 3]));
    counted("for a logic of no size", vars, e, occurs, |_| Nothing)?;
    // all of n operands takes n operations, or one less or more with neutral elements
    let mut ops = [(0, 0); 3];
    for n in &ast.nodes {
        if let model::N::Fn(f, v) = n {
            let n = v.len();
            let (i, lo, hi) = match f {
                F::All => (0, n.saturating_sub(1), n + 1),
                F::Any => (1, n.saturating_sub(1), n + 1),
                F::Not => (2, 1, 1),
            };
            ops[i] = (ops[i].0 + lo, ops[i].1 + hi);
        }
    }
    let got = OPS.with(|n| n.get());
    if (0..3).any(|i| got[i] < ops[i].0 || got[i] > ops[i].1) {
        return Err(bad(format!("and, or and not applied {ops:?} times (from, to)"), format!("{got:?} times, for a logic of no size, in {text}")));
    }
    let byte = |v: u32| [0xaau8, 0xcc, 0xf0, 0x0f, 0x3c, 0x96, 0x69, 0x5a][v as usize % 8];
    let want = ast.fold(
        |l| byte(vars.of_leaf[l as usize]),
        |k, v| match k {
            F::All => v.iter().fold(0xff, |a, b| a & b),
            F::Any => v.iter().fold(0, |a, b| a | b),
            F::Not => !v[0],
        },
    );
    let got = counted("for a logic of one byte", vars, e, occurs, |v| Byte(byte(v)))?;
    if got.0 != want {
        return Err(bad(format!("{want:08b} for eight assignments"), format!("{:08b}", got.0)));
    }
    st.traces += 7;
    Ok(())
}

// ---- exploration ------------------------------------------------------------------------

pub fn all(r: &mut Run, sizes: usize, f: fn(&str, &mut Stats) -> Res) {
    let trees = Trees::new(12);
    for n in 1..=sizes {
        r.space(&format!("all trees of {n} nodes"), trees.count(n), |i, ctx| {
            let t = trees.text(n, i, (i % 8) as usize);
            ctx.case(&t, |st| f(&t, st));
        });
    }
    // with repeated predicates: all ways in which some leaves are the same
    for n in 3..=sizes.min(9) - 1 {
        r.space(&format!("all trees of {n} nodes with all repetitions of predicates"), trees.count(n), |i, ctx| {
            repeated(&trees.text(n, i, HOLES), (i % 8) as usize, &mut |t| ctx.case(t, |st| f(t, st)));
        });
    }
    // one leaf kind per position is not all: rotate them
    r.space("all trees of 5 nodes with 8 rotations of the kinds of predicates", trees.count(5) * 8, |i, ctx| {
        let t = trees.text(5, i / 8, (i % 8) as usize);
        ctx.case(&t, |st| f(&t, st));
    });
    wide(r, f);
    let sel = texts::Sel { toks: (6, 10), chars: (0, 0), unicode: false, keys: false, values: 0, sweeps: true, big: true, wraps: true, dict: false, tails: 0, pairs: if r.thorough { 8 } else { 7 }, mixed: 0 };
    crate::mix::explore(r, 3, false, &|ctx, t| ctx.case(t, |st| f(t, st)));
    texts::explore(r, &sel, &|ctx, t| ctx.case(t, |st| f(t, st)));
}

/// Wide lists of distinct operands, on their own and nested with siblings
fn wide(r: &mut Run, f: fn(&str, &mut Stats) -> Res) {
    let ws = texts::interesting_lengths(if r.thorough { 12 } else { 10 });
    r.space("widths of lists of distinct operands", ws.len() as u64 * 6, |i, ctx| {
        let n = ws[i as usize / 6];
        let kind = i % 6;
        for func in ["all", "any"] {
            let mut s = format!("{func}(");
            for k in 0..n {
                if k > 0 {
                    s.push(',');
                }
                let x = match (kind, k % 3) {
                    (0, _) => format!("x{k}"),
                    (1, _) | (3, 1) => format!("not(x{k})"),
                    (2, _) | (3, 2) => format!("any(x{k},all(y{k}))"),
                    (4, _) if k + 1 == n => format!("not(not(x{k}))"),
                    (5, _) if k == 0 => format!("all(not(x{k}),any())"),
                    _ => format!("x{k}=\"v\""),
                };
                s.push_str(&x);
            }
            s.push(')');
            ctx.case(&s, |st| f(&s, st));
            for (p, q) in [("not(", ")"), ("all(u,not(v),", ",w)"), ("any(u,", ",not(w),z)")] {
                if n <= 600 {
                    let t = format!("{p}{s}{q}");
                    ctx.case(&t, |st| f(&t, st));
                }
            }
        }
    });
    let mut big = vec![];
    for n in [65_534usize, 65_535, 65_536, 65_537, 70_000] {
        for k in 0..6 {
            big.push((n, k));
        }
    }
    r.space("lists of more than 2^16 distinct operands", big.len() as u64, |i, ctx| {
        let (n, kind) = big[i as usize];
        let f1 = ["all", "any"][kind % 2];
        let item = |k: usize| match kind / 2 {
            0 => format!("x{k}"),
            1 => format!("not(x{k})"),
            _ => {
                if k % 2 == 0 {
                    format!("x{k}")
                } else {
                    format!("all(x{k})")
                }
            }
        };
        let s = format!("{f1}({})", (0..n).map(item).collect::<Vec<_>>().join(","));
        ctx.case(&s, |st| f(&s, st));
    });
    let m = if r.thorough { 70 } else { 36 };
    r.space("lists of distinct operands of each width at each depth", m * m, |i, ctx| {
        let (d, w) = ((i / m) as usize, (i % m) as usize);
        let list = (0..w).map(|k| format!("x{k}")).collect::<Vec<_>>().join(",");
        for func in ["all", "any"] {
            let mut s = format!("{func}({list})");
            for k in 0..d {
                s = match k % 3 {
                    0 => format!("not({s})"),
                    1 => format!("all(l{k},{s})"),
                    _ => format!("any({s},r{k})"),
                };
            }
            ctx.case(&s, |st| f(&s, st));
            // next to each other
            let o = (0..d).map(|k| format!("not(y{k})")).collect::<Vec<_>>().join(",");
            let s = format!("{func}(any({o}),all({list}),u)");
            ctx.case(&s, |st| f(&s, st));
            let s = format!("{func}({o}{}{list})", if d > 0 && w > 0 { "," } else { "" });
            ctx.case(&s, |st| f(&s, st));
        }
    });
    let ds = texts::interesting_lengths(10);
    r.space("caterpillars: nested lists with predicates on either side", ds.len() as u64 * 16, |i, ctx| {
        let n = ds[i as usize / 16];
        let k = i % 16;
        if n > 1100 {
            return;
        }
        let mut s = String::new();
        for d in 0..n {
            let f1 = if (k & 1 == 1) == (d % 2 == 0) { "all" } else { "any" };
            if k & 2 != 0 && d % 3 == 1 {
                s.push_str("not(");
            }
            s.push_str(f1);
            s.push('(');
            if k & 4 != 0 {
                s.push_str(&format!("l{d},"));
            }
        }
        s.push_str("mid");
        for d in (0..n).rev() {
            if k & 8 != 0 {
                s.push_str(&format!(",r{d}"));
            }
            s.push(')');
            if k & 2 != 0 && d % 3 == 1 {
                s.push(')');
            }
        }
        ctx.case(&s, |st| f(&s, st));
    });
}

fn table(r: &mut Run, f: fn(&str, &mut Stats) -> Res) {
    r.space("operations of the logic on all values", 1, |_, ctx| ctx.case("table", |st| f("table", st)));
}

pub fn explore07(r: &mut Run) {
    table(r, p07);
    let n = if r.thorough { 10 } else { 9 };
    all(r, n, p07);
}
pub fn explore08(r: &mut Run) {
    table(r, p08);
    let n = if r.thorough { 9 } else { 8 };
    all(r, n, p08);
}
pub fn explore09(r: &mut Run) {
    let n = if r.thorough { 10 } else { 9 };
    all(r, n, p09);
}

pub fn test_eval(text: &str) -> String {
    format!("let e = cfg_expr::Expression::parse({text:?}).unwrap();\n    // see the expected value above; evaluate with the assignment given there\n    dbg!(e.eval(|p| {{ dbg!(p); true }}));")
}
