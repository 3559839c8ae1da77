//! Grammars: driving the real parser, the derivation oracle, an independent canonical LR(1)
//! construction and a reference parser with the documented error-recovery policy.
use crate::util::*;
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

// ------------------------------------------------------------------ grammars
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sy {
    N(usize),
    T(usize),
    E,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Grammar {
    pub start: usize,
    pub rules: Vec<(usize, Vec<Sy>)>,
}
impl Grammar {
    pub fn nts(&self) -> BTreeSet<usize> {
        let mut s: BTreeSet<usize> = self.rules.iter().map(|r| r.0).collect();
        s.insert(self.start);
        for (_, rhs) in &self.rules {
            for x in rhs {
                if let Sy::N(n) = x {
                    s.insert(*n);
                }
            }
        }
        s
    }
    pub fn terms(&self) -> BTreeSet<usize> {
        self.rules.iter().flat_map(|r| r.1.iter()).filter_map(|x| if let Sy::T(t) = x { Some(*t) } else { None }).collect()
    }
    pub fn defined(&self) -> bool {
        let d: BTreeSet<usize> = self.rules.iter().map(|r| r.0).collect();
        self.nts().iter().all(|n| d.contains(n))
    }
    pub fn has_error(&self) -> bool {
        self.rules.iter().any(|r| r.1.contains(&Sy::E))
    }
    pub fn without_error_rules(&self) -> (Grammar, Vec<usize>) {
        let keep: Vec<usize> = (0..self.rules.len()).filter(|&i| !self.rules[i].1.contains(&Sy::E)).collect();
        (Grammar { start: self.start, rules: keep.iter().map(|&i| self.rules[i].clone()).collect() }, keep)
    }
    /// nonterminals deriving some terminal string (ERROR counts as a terminal)
    pub fn productive(&self) -> BTreeSet<usize> {
        let mut p = BTreeSet::new();
        loop {
            let n = p.len();
            for (l, r) in &self.rules {
                if r.iter().all(|x| if let Sy::N(k) = x { p.contains(k) } else { true }) {
                    p.insert(*l);
                }
            }
            if p.len() == n {
                return p;
            }
        }
    }
    pub fn reachable(&self) -> BTreeSet<usize> {
        let mut s = BTreeSet::from([self.start]);
        loop {
            let n = s.len();
            for (l, r) in &self.rules {
                if s.contains(l) {
                    s.extend(r.iter().filter_map(|x| if let Sy::N(k) = x { Some(*k) } else { None }));
                }
            }
            if s.len() == n {
                return s;
            }
        }
    }
    pub fn reachable_productive(&self) -> bool {
        let p = self.productive();
        self.reachable().iter().all(|n| p.contains(n))
    }
    pub fn show(&self) -> String {
        let n = |k: &usize| if *k < 26 { ((b'A' + *k as u8) as char).to_string() } else { format!("N{k}") };
        let t = |k: &usize| if *k < 26 { ((b'a' + *k as u8) as char).to_string() } else { format!("t{k}") };
        let rs: Vec<String> = self.rules.iter().map(|(l, r)| format!("{} -> {}", n(l), if r.is_empty() { "()".into() } else { r.iter().map(|x| match x { Sy::N(k) => n(k), Sy::T(k) => t(k), Sy::E => "ERROR".into() }).collect::<Vec<_>>().join(" ") })).collect();
        format!("start {}; {}", n(&self.start), rs.join("; "))
    }
    pub fn json(&self) -> Value {
        json!({"text": self.show(), "start": self.start, "rules": self.rules.iter().map(|(l, r)| json!([l, r.iter().map(|x| match x { Sy::N(k) => format!("N{k}"), Sy::T(k) => format!("T{k}"), Sy::E => "E".into() }).collect::<Vec<_>>()])).collect::<Vec<_>>()})
    }
    pub fn from_json(v: &Value) -> Grammar {
        let sy = |s: &str| match s.as_bytes()[0] {
            b'N' => Sy::N(s[1..].parse().unwrap()),
            b'T' => Sy::T(s[1..].parse().unwrap()),
            _ => Sy::E,
        };
        Grammar { start: v["start"].as_u64().unwrap() as usize, rules: v["rules"].as_array().unwrap().iter().map(|r| (r[0].as_u64().unwrap() as usize, r[1].as_array().unwrap().iter().map(|x| sy(x.as_str().unwrap())).collect())).collect() }
    }
    /// Compact notation: "S: A b | ERROR c; A: ()" – upper case nonterminals, lower case
    /// terminals, both numbered by first appearance unless given in `nt`/`t`.
    pub fn parse(src: &str) -> Grammar {
        let (mut nt, mut tm): (Vec<String>, Vec<String>) = (vec![], vec![]);
        let prods: Vec<(&str, &str)> = src.split(';').map(|p| p.split_once("::=").unwrap()).collect();
        for (l, _) in &prods {
            if !nt.contains(&l.trim().to_string()) {
                nt.push(l.trim().into());
            }
        }
        let mut rules = vec![];
        for (l, r) in prods {
            let l = nt.iter().position(|x| x == l.trim()).unwrap();
            for alt in r.split('|') {
                let rhs = alt
                    .split_whitespace()
                    .filter(|x| *x != "()")
                    .map(|x| {
                        if x == "ERROR" {
                            Sy::E
                        } else if let Some(i) = nt.iter().position(|n| n == x) {
                            Sy::N(i)
                        } else {
                            assert!(!x.chars().next().unwrap().is_uppercase(), "undefined nonterminal {x}");
                            let i = tm.iter().position(|n| n == x).unwrap_or_else(|| {
                                tm.push(x.into());
                                tm.len() - 1
                            });
                            Sy::T(i)
                        }
                    })
                    .collect();
                rules.push((l, rhs));
            }
        }
        Grammar { start: 0, rules }
    }
}

// ------------------------------------------------------------------ the real parser
#[derive(Debug, PartialEq)]
pub struct Node {
    pub nt: usize,
    pub serial: usize,
}
impl Node {
    pub fn nt(k: usize) -> Node {
        Node { nt: k, serial: usize::MAX }
    }
}
impl EnumIndex for Node {
    fn enum_index(&self) -> usize {
        self.nt
    }
}
#[derive(Debug, PartialEq)]
pub struct Tok {
    pub kind: usize,
    pub id: usize,
}
impl Tok {
    pub fn k(k: usize) -> Tok {
        Tok { kind: k, id: usize::MAX }
    }
}
impl EnumIndex for Tok {
    fn enum_index(&self) -> usize {
        self.kind
    }
}
#[derive(Debug, PartialEq)]
pub struct Fault(pub usize);
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "fault#{}", self.0)
    }
}
impl std::error::Error for Fault {}
pub type Real = LR1Parser<Node, Tok, Fault>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arg {
    /// value returned by the n-th reducer call
    N(usize),
    T(usize, usize),
    /// slice of tokens start..end
    E(usize, usize),
    /// anything that must not happen
    Bad(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Call {
    pub rule: usize,
    pub args: Vec<Arg>,
}
thread_local! {
    static LOG: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
    static FAULT_AT: Cell<usize> = const { Cell::new(usize::MAX) };
    static CALL_CAP: Cell<usize> = const { Cell::new(usize::MAX) };
    /// tokens pulled so far, and that number at the time of each reducer call
    static PULLED: Cell<usize> = const { Cell::new(0) };
    static CALL_PULLS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}
/// A parse started from inside another one: when its source is asked for token `at`, or in its reducer call `at`.
struct Nest {
    p: *const Real,
    w: Vec<usize>,
    in_source: bool,
    at: usize,
}
thread_local! {
    static NEST: RefCell<Option<Nest>> = const { RefCell::new(None) };
    static NESTED: RefCell<Option<Outcome>> = const { RefCell::new(None) };
}
fn nested(in_source: bool, at: usize) {
    let due = NEST.with(|n| {
        let mut n = n.borrow_mut();
        if matches!(&*n, Some(x) if x.in_source == in_source && x.at == at) { n.take() } else { None }
    });
    if let Some(n) = due {
        let saved = (log_take(), CALL_PULLS.with(|c| c.take()), PULLED.with(|c| c.get()), FAULT_AT.with(|c| c.get()), CALL_CAP.with(|c| c.get()));
        // SAFETY: set by run_nested, which keeps the parser borrowed until the outer parse has returned
        let o = run(unsafe { &*n.p }, &n.w, usize::MAX);
        NESTED.with(|x| *x.borrow_mut() = Some(o));
        LOG.with(|l| *l.borrow_mut() = saved.0);
        CALL_PULLS.with(|c| *c.borrow_mut() = saved.1);
        PULLED.with(|c| c.set(saved.2));
        FAULT_AT.with(|c| c.set(saved.3));
        CALL_CAP.with(|c| c.set(saved.4));
    }
}
/// Parses `w` and, inside that parse, `inner` with the parser `q`: both outcomes (the inner one if it was reached).
pub fn run_nested(p: &Real, w: &[usize], q: &Real, inner: &[usize], in_source: bool, at: usize) -> (Outcome, Option<Outcome>) {
    NEST.with(|n| *n.borrow_mut() = Some(Nest { p: q, w: inner.to_vec(), in_source, at }));
    NESTED.with(|n| n.take());
    let o = run(p, w, usize::MAX);
    NEST.with(|n| n.take());
    (o, NESTED.with(|n| n.take()))
}
/// The reducer of every rule in every harness grammar.
pub fn reduce(rule: usize, nt: usize, list: &mut [Symbol<&mut Node, &Tok, &[Tok]>]) -> Result<Node, Fault> {
    nested(false, LOG.with(|l| l.borrow().len()));
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        let n = l.len();
        let args = list
            .iter_mut()
            .map(|s| match s {
                Symbol::NonTerminal(x) => {
                    let s = std::mem::replace(&mut x.serial, usize::MAX - 1);
                    match l.get(s) {
                        Some(_) => Arg::N(s),
                        None => Arg::Bad(format!("nonterminal value used twice or never made ({s})")),
                    }
                }
                Symbol::Terminal(t) => Arg::T(t.kind, t.id),
                Symbol::Error(sl) => {
                    let st = sl.first().map(|t| t.id).unwrap_or(0);
                    if sl.iter().enumerate().any(|(i, t)| t.id != st + i) {
                        Arg::Bad(format!("error slice not contiguous: {:?}", sl.iter().map(|t| t.id).collect::<Vec<_>>()))
                    } else if sl.is_empty() {
                        Arg::E(0, 0)
                    } else {
                        Arg::E(st, st + sl.len())
                    }
                }
            })
            .collect();
        l.push(Call { rule, args });
        CALL_PULLS.with(|c| c.borrow_mut().push(PULLED.with(|p| p.get())));
        if n >= FAULT_AT.with(|f| f.get()).min(CALL_CAP.with(|c| c.get())) {
            Err(Fault(n))
        } else {
            Ok(Node { nt, serial: n })
        }
    })
}

pub fn raw_rhs(rhs: &[Sy]) -> Vec<Symbol<usize, usize, ()>> {
    rhs.iter()
        .map(|s| match s {
            Sy::N(n) => Symbol::NonTerminal(*n),
            Sy::T(t) => Symbol::Terminal(*t),
            Sy::E => Symbol::Error(()),
        })
        .collect()
}
pub fn syntax(g: &Grammar) -> Syntax<Node, Tok, Fault> {
    let mut b = Syntax::<Node, Tok, Fault>::builder();
    for (i, (l, rhs)) in g.rules.iter().enumerate() {
        let l = *l;
        b = b.rule(Rule::new_raw(l, &raw_rhs(rhs), move |list| reduce(i, l, list)));
    }
    b.build(Node::nt(g.start))
}
/// Builds the real parser; the warnings as their Debug text.
pub fn build(g: &Grammar) -> Result<(Real, Vec<String>), Violation> {
    set_group(|| json!({"grammar": g.json()}));
    match guard(|| {
        let (p, w) = LR1Parser::new(syntax(g));
        (p, w.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>())
    }) {
        Ok(x) => Ok(x),
        Err(e) => bad(format!("building the parser panicked: {e}"), json!({"grammar": g.json()})),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Ok(usize),
    NotFound,
    Fault(usize),
    Loop,
    Panic(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Outcome {
    pub out: Out,
    pub calls: Vec<Call>,
    pub pulls: usize,
}
pub struct Src {
    pub w: Rc<Vec<usize>>,
    pub pos: usize,
    pub pulls: Rc<Cell<usize>>,
}
impl Iterator for Src {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        let i = self.pos;
        // asking again after the end is harmless, so it is not counted
        self.pulls.set((self.pulls.get() + 1).min(self.w.len() + 1));
        PULLED.with(|p| p.set(self.pulls.get()));
        nested(true, i);
        if i < self.w.len() {
            self.pos += 1;
            Some(Tok { kind: self.w[i], id: i })
        } else {
            None
        }
    }
    // truthful in each of the three ways; the parser must not depend on it
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.w.len() - self.pos;
        match if self.w.len() > 1000 { 0 } else { self.w.iter().fold(self.w.len(), |a, b| a.wrapping_mul(3).wrapping_add(*b)) % 3 } {
            0 => (left, Some(left)),
            1 => (0, None),
            _ => (left, None),
        }
    }
}
pub fn cap_for(len: usize) -> usize {
    // recovery re-parses what follows a discarded token, so the work is quadratic in the worst case
    2000 + 40 * len + 8 * len * len
}
/// Number of tokens pulled at each reducer call of the last run on this thread.
pub fn last_call_pulls() -> Vec<usize> {
    CALL_PULLS.with(|c| c.borrow().clone())
}
pub fn set_pulled(n: usize) {
    PULLED.with(|p| p.set(n));
}
pub fn log_begin(cap: usize, fault_at: usize) {
    LOG.with(|l| l.borrow_mut().clear());
    CALL_PULLS.with(|l| l.borrow_mut().clear());
    PULLED.with(|l| l.set(0));
    FAULT_AT.with(|f| f.set(fault_at));
    CALL_CAP.with(|c| c.set(cap));
}
pub fn log_take() -> Vec<Call> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn run(p: &Real, w: &[usize], fault_at: usize) -> Outcome {
    run_err(p, w, fault_at).0
}
/// The outcome and, for an error, its display text and whether its source is the reducer's error.
pub fn run_err(p: &Real, w: &[usize], fault_at: usize) -> (Outcome, Option<(String, Option<usize>)>) {
    let cap = cap_for(w.len());
    log_begin(cap, fault_at);
    let pulls = Rc::new(Cell::new(0));
    let src = Src { w: Rc::new(w.to_vec()), pos: 0, pulls: pulls.clone() };
    let r = guard(|| src.parse(p));
    let calls = log_take();
    let mut err = None;
    if fault_at != usize::MAX {
        if let Ok(Err(e)) = &r {
            let src = std::error::Error::source(e).and_then(|s| s.downcast_ref::<Fault>()).map(|f| f.0);
            err = Some((e.to_string(), src));
        }
    }
    let out = match r {
        Err(e) => Out::Panic(e),
        Ok(Ok(n)) => Out::Ok(n.serial),
        Ok(Err(ParseError::RecoveryRuleNotFound)) => Out::NotFound,
        Ok(Err(ParseError::ErrorInReducer(Fault(n)))) => {
            if n >= cap && fault_at > cap {
                Out::Loop
            } else {
                Out::Fault(n)
            }
        }
    };
    (Outcome { out, calls, pulls: pulls.get() }, err)
}
// ------------------------------------------------------------------ derivation oracle
/// Derivations of one input, computed from the definition of "derives" (no LR machinery):
/// cnt[n][i][j] = number of derivation trees of n over w[i..j], saturated at 2.
pub struct Deriv<'a> {
    g: &'a Grammar,
    w: &'a [usize],
    idx: Vec<usize>, // nonterminals, ascending
    cnt: Vec<u8>,
}
impl<'a> Deriv<'a> {
    pub fn new(g: &'a Grammar, w: &'a [usize]) -> Self {
        let n = w.len();
        let idx: Vec<usize> = g.nts().into_iter().collect();
        let mut d = Deriv { g, w, cnt: vec![0; idx.len() * (n + 1) * (n + 1)], idx };
        loop {
            let mut ch = false;
            // recompute every count from the previous ones; counts only grow
            for k in 0..d.idx.len() {
                let l = d.idx[k];
                for i in (0..=n).rev() {
                    for j in i..=n {
                        let at = (k * (n + 1) + i) * (n + 1) + j;
                        if d.cnt[at] == 2 {
                            continue;
                        }
                        let c: u8 = g.rules.iter().filter(|r| r.0 == l).map(|r| d.seq(&r.1, i, j)).fold(0u8, |a, b| (a + b).min(2));
                        if c > d.cnt[at] {
                            d.cnt[at] = c;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                return d;
            }
        }
    }
    fn get(&self, n: usize, i: usize, j: usize) -> u8 {
        match self.idx.binary_search(&n) {
            Ok(k) => self.cnt[(k * (self.w.len() + 1) + i) * (self.w.len() + 1) + j],
            Err(_) => 0,
        }
    }
    fn seq(&self, rhs: &[Sy], i: usize, j: usize) -> u8 {
        match rhs.split_first() {
            None => (i == j) as u8,
            Some((Sy::E, _)) => 0,
            Some((Sy::T(t), rest)) => {
                if i < j && self.w[i] == *t {
                    self.seq(rest, i + 1, j)
                } else {
                    0
                }
            }
            Some((Sy::N(n), [])) => self.get(*n, i, j),
            Some((Sy::N(n), rest)) => {
                let mut c = 0u8;
                for k in i..=j {
                    let a = self.get(*n, i, k);
                    if a > 0 {
                        c = (c + a * self.seq(rest, k, j).min(2)).min(2);
                    }
                }
                c
            }
        }
    }
    pub fn count(&self) -> u8 {
        self.get(self.g.start, 0, self.w.len())
    }
    /// reducer calls of the unique derivation, in post-order
    pub fn calls(&self) -> Vec<Call> {
        let mut out = vec![];
        self.emit(self.g.start, 0, self.w.len(), &mut out);
        out
    }
    fn emit(&self, n: usize, i: usize, j: usize, out: &mut Vec<Call>) -> usize {
        for (ri, (l, rhs)) in self.g.rules.iter().enumerate() {
            if *l == n && self.seq(rhs, i, j) > 0 {
                let mut args = vec![];
                let mut p = i;
                for (k, s) in rhs.iter().enumerate() {
                    match s {
                        Sy::T(t) => {
                            args.push(Arg::T(*t, p));
                            p += 1;
                        }
                        Sy::N(m) => {
                            let e = (p..=j).find(|&e| self.get(*m, p, e) > 0 && self.seq(&rhs[k + 1..], e, j) > 0).unwrap();
                            args.push(Arg::N(self.emit(*m, p, e, out)));
                            p = e;
                        }
                        Sy::E => unreachable!(),
                    }
                }
                out.push(Call { rule: ri, args });
                return out.len() - 1;
            }
        }
        unreachable!()
    }
}

// ------------------------------------------------------------------ reference canonical LR(1)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    None,
    Shift(usize),
    Reduce(usize),
    Accept,
}
pub struct Conflict {
    pub state: usize,
    pub la: usize,
    pub shift: bool,
    pub reduces: Vec<usize>, // includes rules.len() for accept
}
pub struct Lr {
    pub g: Grammar,
    pub tidx: BTreeMap<usize, usize>,
    pub eoi: usize,
    pub err: usize,
    pub action: Vec<Vec<Act>>,
    pub goto: Vec<HashMap<usize, usize>>,
    pub err_rules: Vec<BTreeSet<usize>>,
    pub conflicts: Vec<Conflict>,
    pub transitions: u64,
    /// items with the dot behind at least one symbol, lookaheads dropped
    pub kernels: Vec<BTreeSet<(usize, usize)>>,
}
type It = (usize, usize, usize);
impl Lr {
    pub fn new(g: &Grammar) -> Lr {
        let tidx: BTreeMap<usize, usize> = g.terms().into_iter().enumerate().map(|(i, t)| (t, i)).collect();
        let (eoi, err) = (tidx.len(), tidx.len() + 1);
        let nla = tidx.len() + 2;
        let aug = g.rules.len();
        let mut rules: Vec<Vec<Sy>> = g.rules.iter().map(|r| r.1.clone()).collect();
        rules.push(vec![Sy::N(g.start)]);
        let lhs: Vec<usize> = g.rules.iter().map(|r| r.0).collect();
        let tsym = |s: &Sy| match s {
            Sy::T(t) => tidx[t],
            Sy::E => err,
            _ => unreachable!(),
        };
        // nullable and FIRST
        let nts = g.nts();
        let mut nullable: BTreeSet<usize> = BTreeSet::new();
        let mut first: BTreeMap<usize, BTreeSet<usize>> = nts.iter().map(|n| (*n, BTreeSet::new())).collect();
        loop {
            let mut ch = false;
            for (l, r) in &g.rules {
                let mut all = true;
                let mut add = BTreeSet::new();
                for s in r {
                    match s {
                        Sy::N(n) => {
                            add.extend(first[n].iter().copied());
                            if !nullable.contains(n) {
                                all = false;
                                break;
                            }
                        }
                        s => {
                            add.insert(tsym(s));
                            all = false;
                            break;
                        }
                    }
                }
                if all {
                    ch |= nullable.insert(*l);
                }
                let f = first.get_mut(l).unwrap();
                for a in add {
                    ch |= f.insert(a);
                }
            }
            if !ch {
                break;
            }
        }
        let mut by_lhs: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (i, l) in lhs.iter().enumerate() {
            by_lhs.entry(*l).or_default().push(i);
        }
        let closure = |kernel: BTreeSet<It>| -> Vec<It> {
            let mut set = kernel.clone();
            let mut work: Vec<It> = kernel.into_iter().collect();
            while let Some((r, p, la)) = work.pop() {
                if let Some(Sy::N(n)) = rules[r].get(p) {
                    let mut las = BTreeSet::new();
                    let mut through = true;
                    for s in &rules[r][p + 1..] {
                        match s {
                            Sy::N(m) => {
                                las.extend(first[m].iter().copied());
                                if !nullable.contains(m) {
                                    through = false;
                                    break;
                                }
                            }
                            s => {
                                las.insert(tsym(s));
                                through = false;
                                break;
                            }
                        }
                    }
                    if through {
                        las.insert(la);
                    }
                    for &q in by_lhs.get(n).map(|v| &v[..]).unwrap_or(&[]) {
                        for &a in &las {
                            if set.insert((q, 0, a)) {
                                work.push((q, 0, a));
                            }
                        }
                    }
                }
            }
            set.into_iter().collect()
        };
        let mut states: Vec<Vec<It>> = vec![closure(BTreeSet::from([(aug, 0, eoi)]))];
        let mut ids: HashMap<Vec<It>, usize> = HashMap::from([(states[0].clone(), 0)]);
        let (mut action, mut goto, mut err_rules, mut conflicts) = (vec![], vec![], vec![], vec![]);
        let mut transitions = 0;
        let mut i = 0;
        while i < states.len() {
            let st = states[i].clone();
            let mut out: BTreeMap<Sy, BTreeSet<It>> = BTreeMap::new();
            for &(r, p, la) in &st {
                if let Some(s) = rules[r].get(p) {
                    out.entry(*s).or_default().insert((r, p + 1, la));
                }
            }
            let mut shifts: Vec<Option<usize>> = vec![None; nla];
            let mut go = HashMap::new();
            for (s, k) in out {
                let c = closure(k);
                let n = states.len();
                let id = *ids.entry(c.clone()).or_insert_with(|| {
                    states.push(c);
                    n
                });
                transitions += 1;
                match s {
                    Sy::N(n) => {
                        go.insert(n, id);
                    }
                    s => shifts[tsym(&s)] = Some(id),
                }
            }
            let mut row = vec![];
            for la in 0..nla {
                let reds: Vec<usize> = st.iter().filter(|(r, p, a)| *a == la && *p == rules[*r].len()).map(|x| x.0).collect();
                if (shifts[la].is_some() && !reds.is_empty()) || reds.len() > 1 {
                    conflicts.push(Conflict { state: i, la, shift: shifts[la].is_some(), reduces: reds.clone() });
                }
                row.push(if let Some(s) = shifts[la] {
                    Act::Shift(s)
                } else if reds.contains(&aug) {
                    Act::Accept
                } else if let Some(r) = reds.iter().min() {
                    Act::Reduce(*r)
                } else {
                    Act::None
                });
            }
            action.push(row);
            goto.push(go);
            err_rules.push(st.iter().filter(|(r, p, _)| rules[*r].get(*p) == Some(&Sy::E)).map(|x| x.0).collect());
            i += 1;
        }
        let kernels = states.iter().map(|st| st.iter().filter(|x| x.1 > 0).map(|x| (x.0, x.1)).collect()).collect();
        Lr { g: g.clone(), tidx, eoi, err, action, goto, err_rules, conflicts, transitions, kernels }
    }
    pub fn states(&self) -> usize {
        self.action.len()
    }
    pub fn la(&self, w: &[usize], pos: usize) -> Option<usize> {
        match w.get(pos) {
            None => Some(self.eoi),
            Some(k) => self.tidx.get(k).copied(),
        }
    }

    /// Reference parser, including error recovery.
    pub fn run(&self, w: &[usize]) -> Outcome {
        self.run_traced(w, &mut |_, _| {})
    }
    pub fn run_traced(&self, w: &[usize], visit: &mut dyn FnMut(usize, usize)) -> Outcome {
        enum S {
            Tok(usize),
            Err(usize, usize),
            Nt { call: usize, resume: usize, begin: usize },
        }
        let mut st: Vec<(usize, S)> = vec![]; // (state below, symbol)
        let mut q = 0;
        let mut pos = 0;
        let mut reached = 0; // furthest lookahead examined
        let mut calls: Vec<Call> = vec![];
        let mut pending: Option<BTreeSet<usize>> = None;
        let mut inserted: BTreeSet<usize> = BTreeSet::new();
        let cap = cap_for(w.len());
        let mut steps = 0usize;
        let out = loop {
            reached = reached.max(pos);
            steps += 1;
            if steps > 20 * cap || calls.len() > cap {
                break Out::Loop;
            }
            let la = self.la(w, pos);
            visit(q, la.unwrap_or(self.err));
            match la.map(|a| self.action[q][a]).unwrap_or(Act::None) {
                Act::Shift(n) => {
                    st.push((q, S::Tok(pos)));
                    q = n;
                    pos += 1;
                    inserted.clear();
                }
                Act::Accept => match st.pop() {
                    Some((_, S::Nt { call, .. })) => break Out::Ok(call),
                    _ => unreachable!(),
                },
                Act::Reduce(r) => {
                    let (lhs, rhs) = &self.g.rules[r];
                    let syms = st.split_off(st.len() - rhs.len());
                    if let Some((b, _)) = syms.first() {
                        q = *b;
                    }
                    let begin = match syms.first() {
                        Some((_, S::Tok(i))) => *i,
                        Some((_, S::Err(s, _))) => *s,
                        Some((_, S::Nt { begin, .. })) => *begin,
                        None => pos,
                    };
                    let resume = syms.iter().find_map(|(_, s)| match s { S::Tok(i) => Some(*i), S::Nt { resume, .. } => Some(*resume), S::Err(..) => None }).unwrap_or(pos);
                    let args = syms.iter().map(|(_, s)| match s { S::Tok(i) => Arg::T(w[*i], *i), S::Err(a, b) => if a == b { Arg::E(0, 0) } else { Arg::E(*a, *b) }, S::Nt { call, .. } => Arg::N(*call) }).collect();
                    calls.push(Call { rule: r, args });
                    if pending.as_ref().is_some_and(|p| p.contains(&r)) {
                        pending = None;
                    }
                    st.push((q, S::Nt { call: calls.len() - 1, resume, begin }));
                    q = self.goto[q][lhs];
                }
                Act::None => {
                    // Which ERROR rules does state `q` offer, given the rules pending?
                    let offer = |q: usize| -> Option<BTreeSet<usize>> {
                        let e = &self.err_rules[q];
                        let x: BTreeSet<usize> = match &pending {
                            None => e.clone(),
                            Some(p) => e.intersection(p).copied().collect(),
                        };
                        if x.is_empty() { None } else { Some(x) }
                    };
                    let at_end = pos >= w.len();
                    if !inserted.contains(&q) {
                        if let Some(x) = offer(q) {
                            // the context already expects an error here: insert it in front of the offending token
                            inserted.insert(q);
                            pending = Some(x);
                            st.push((q, S::Err(pos, (pos + 1).min(w.len()))));
                            q = match self.action[q][self.err] { Act::Shift(n) => n, _ => unreachable!() };
                            continue;
                        }
                    }
                    if at_end {
                        break Out::NotFound;
                    }
                    // otherwise give up the innermost constructs until one expects an error,
                    // then discard one token
                    let (mut resume, mut begin) = (pos, pos);
                    let found = loop {
                        match st.pop() {
                            None => break None,
                            Some((below, s)) => {
                                q = below;
                                match s {
                                    S::Tok(i) => { resume = i; begin = begin.min(i) }
                                    S::Nt { resume: r, begin: b, .. } => { resume = r; begin = begin.min(b) }
                                    S::Err(a, _) => begin = begin.min(a),
                                }
                                if let Some(x) = offer(q) {
                                    break Some(x);
                                }
                            }
                        }
                    };
                    match found {
                        None => break Out::NotFound,
                        Some(x) => {
                            pending = Some(x);
                            inserted.clear();
                            st.push((q, S::Err(begin, pos + 1)));
                            q = match self.action[q][self.err] { Act::Shift(n) => n, _ => unreachable!() };
                            pos = resume + 1;
                        }
                    }
                }
            }
        };
        Outcome { out, calls, pulls: reached + 1 }
    }
}

/// Does w[..k] start some sentence? Earley-style, from the grammar alone (all nonterminals
/// reachable and productive is assumed).
pub fn viable_prefix(g: &Grammar, w: &[usize]) -> usize {
    let mut sets: Vec<BTreeSet<(usize, usize, usize)>> = vec![BTreeSet::new(); w.len() + 1];
    for (i, r) in g.rules.iter().enumerate() {
        if r.0 == g.start {
            sets[0].insert((i, 0, 0));
        }
    }
    let mut nullable = BTreeSet::new();
    loop {
        let n = nullable.len();
        for (l, r) in &g.rules {
            if r.iter().all(|s| matches!(s, Sy::N(k) if nullable.contains(k))) {
                nullable.insert(*l);
            }
        }
        if n == nullable.len() {
            break;
        }
    }
    for k in 0..=w.len() {
        loop {
            let mut add = vec![];
            for &(r, p, o) in &sets[k] {
                match g.rules[r].1.get(p) {
                    Some(Sy::N(n)) => {
                        for (i, rr) in g.rules.iter().enumerate() {
                            if rr.0 == *n {
                                add.push((i, 0, k));
                            }
                        }
                        if nullable.contains(n) {
                            add.push((r, p + 1, o));
                        }
                    }
                    None => {
                        for &(r2, p2, o2) in &sets[o] {
                            if g.rules[r2].1.get(p2) == Some(&Sy::N(g.rules[r].0)) {
                                add.push((r2, p2 + 1, o2));
                            }
                        }
                    }
                    _ => {}
                }
            }
            let mut ch = false;
            for a in add {
                ch |= sets[k].insert(a);
            }
            if !ch {
                break;
            }
        }
        if k < w.len() {
            let nx: BTreeSet<_> = sets[k].iter().filter(|(r, p, _)| g.rules[*r].1.get(*p) == Some(&Sy::T(w[k]))).map(|&(r, p, o)| (r, p + 1, o)).collect();
            if nx.is_empty() {
                return k;
            }
            sets[k + 1] = nx;
        }
    }
    w.len()
}

/// All words of length <= n over `alpha`, shortest first.
pub fn words(alpha: &[usize], n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = out.len();
        for i in from..to {
            for &a in alpha {
                let mut x = out[i].clone();
                x.push(a);
                out.push(x);
            }
        }
        from = to;
    }
    out
}
/// Every rule over the given nonterminals, terminals and optionally ERROR, RHS length <= len.
pub fn all_rules(nts: usize, ts: usize, err: bool, len: usize) -> Vec<(usize, Vec<Sy>)> {
    let mut syms: Vec<Sy> = (0..ts).map(Sy::T).chain((0..nts).map(Sy::N)).collect();
    if err {
        syms.push(Sy::E);
    }
    let idx: Vec<usize> = (0..syms.len()).collect();
    let rhss = words(&idx, len);
    (0..nts).flat_map(|n| rhss.iter().map(|r| (n, r.iter().map(|&i| syms[i]).collect::<Vec<_>>())).collect::<Vec<_>>()).collect()
}
/// All sets of 1..=k rules from `u` (in universe order) giving grammars whose nonterminals are all
/// defined and reachable from nonterminal 0.
pub fn all_grammars(u: &[(usize, Vec<Sy>)], k: usize, min: usize) -> Vec<Grammar> {
    all_grammars_if(u, k, min, |g| g.defined() && g.reachable().len() == g.nts().len())
}
pub fn all_grammars_if(u: &[(usize, Vec<Sy>)], k: usize, min: usize, keep: impl Fn(&Grammar) -> bool) -> Vec<Grammar> {
    let mut out = vec![];
    fn rec(u: &[(usize, Vec<Sy>)], from: usize, k: usize, min: usize, cur: &mut Vec<usize>, out: &mut Vec<Grammar>, keep: &dyn Fn(&Grammar) -> bool) {
        if cur.len() >= min.max(1) {
            let g = Grammar { start: 0, rules: cur.iter().map(|&i| u[i].clone()).collect() };
            if keep(&g) {
                out.push(g);
            }
        }
        if cur.len() == k {
            return;
        }
        for i in from..u.len() {
            cur.push(i);
            rec(u, i + 1, k, min, cur, out, keep);
            cur.pop();
        }
    }
    rec(u, 0, k, min, &mut vec![], &mut out, &keep);
    out
}
