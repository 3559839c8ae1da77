//! Reference model of regular expressions: AST -> Glushkov positions -> determinised reference
//! automaton for a list of patterns. Shares no code with the repository.
use std::collections::{BTreeSet, HashMap};

pub const MAXC: u32 = 0x110000;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Re {
    /// set of code point ranges [lo, hi) with the concrete syntax that denotes it
    Set(Vec<(u32, u32)>, String),
    Cat(Box<Re>, Box<Re>),
    Alt(Box<Re>, Box<Re>),
    Rep(Box<Re>, u32, Option<u32>, String),
    /// the empty regular expression, written by leaving something out
    Eps,
}
pub fn ch(c: char) -> Re {
    let s = if "\\.+*?()|[]{}^$#&-~".contains(c) {
        format!("\\{c}")
    } else if c.is_control() || (c as u32) > 0x7e {
        format!("\\u{{{:x}}}", c as u32)
    } else {
        c.to_string()
    };
    Re::Set(vec![(c as u32, c as u32 + 1)], s)
}
pub fn set(r: &[(u32, u32)], s: &str) -> Re {
    Re::Set(r.to_vec(), s.to_string())
}
/// A leaf written in concrete class syntax; its set of code points is taken from regex-syntax
/// (a third-party dependency, not code under test).
pub fn leaf(s: &str) -> Re {
    use regex_syntax::hir::{Class, HirKind, Literal};
    let mut h = regex_syntax::Parser::new().parse(s).unwrap_or_else(|e| panic!("leaf {s}: {e}")).into_kind();
    while let HirKind::Group(g) = h {
        h = g.hir.into_kind();
    }
    match h {
        HirKind::Class(Class::Unicode(c)) => Re::Set(c.iter().map(|r| (r.start() as u32, r.end() as u32 + 1)).collect(), s.into()),
        HirKind::Literal(Literal::Unicode(c)) => Re::Set(vec![(c as u32, c as u32 + 1)], s.into()),
        k => panic!("leaf {s} is {k:?}"),
    }
}
/// An alternation / concatenation of several parts
pub fn alts(v: Vec<Re>) -> Re {
    v.into_iter().reduce(alt).unwrap()
}
pub fn cats(v: Vec<Re>) -> Re {
    v.into_iter().reduce(cat).unwrap()
}
/// Parses concrete syntax into the reference AST through regex-syntax's own *AST/HIR* (third
/// party); used for realistic pattern lists.
pub fn from_syntax(s: &str) -> Re {
    use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind as K, RepetitionRange as RR};
    fn go(h: Hir) -> Re {
        match h.into_kind() {
            HirKind::Empty => Re::Eps,
            HirKind::Literal(Literal::Unicode(c)) => ch(c),
            HirKind::Class(Class::Unicode(c)) => Re::Set(c.iter().map(|r| (r.start() as u32, r.end() as u32 + 1)).collect(), "<class>".into()),
            HirKind::Group(g) => go(*g.hir),
            HirKind::Concat(v) => cats(v.into_iter().map(go).collect()),
            HirKind::Alternation(v) => alts(v.into_iter().map(go).collect()),
            HirKind::Repetition(r) => {
                let (n, m) = match r.kind {
                    K::ZeroOrOne => (0, Some(1)),
                    K::ZeroOrMore => (0, None),
                    K::OneOrMore => (1, None),
                    K::Range(RR::Exactly(n)) => (n, Some(n)),
                    K::Range(RR::AtLeast(n)) => (n, None),
                    K::Range(RR::Bounded(n, m)) => (n, Some(m)),
                };
                rep(go(*r.hir), n, m, "<rep>")
            }
            k => panic!("unsupported {k:?}"),
        }
    }
    go(regex_syntax::Parser::new().parse(s).unwrap())
}
pub fn rng(a: char, b: char) -> Re {
    set(&[(a as u32, b as u32 + 1)], &format!("[{a}-{b}]"))
}
pub fn cat(a: Re, b: Re) -> Re {
    Re::Cat(Box::new(a), Box::new(b))
}
pub fn alt(a: Re, b: Re) -> Re {
    Re::Alt(Box::new(a), Box::new(b))
}
pub fn rep(a: Re, min: u32, max: Option<u32>, s: &str) -> Re {
    Re::Rep(Box::new(a), min, max, s.into())
}
pub fn star(a: Re) -> Re {
    rep(a, 0, None, "*")
}
pub fn plus(a: Re) -> Re {
    rep(a, 1, None, "+")
}
pub fn opt(a: Re) -> Re {
    rep(a, 0, Some(1), "?")
}
pub fn word(w: &str) -> Re {
    let mut it = w.chars();
    let mut r = ch(it.next().unwrap());
    for c in it {
        r = cat(r, ch(c));
    }
    r
}
/// "{n}", "{n,}" or "{n,m}"
pub fn counted(a: Re, n: u32, m: Option<Option<u32>>) -> Re {
    match m {
        None => rep(a, n, Some(n), &format!("{{{n}}}")),
        Some(None) => rep(a, n, None, &format!("{{{n},}}")),
        Some(Some(m)) => rep(a, n, Some(m), &format!("{{{n},{m}}}")),
    }
}

impl Re {
    pub fn pattern(&self) -> String {
        self.print(0)
    }
    // prec: 0 alternation, 1 concatenation, 2 repetition operand
    fn print(&self, prec: u8) -> String {
        let (p, s) = match self {
            Re::Set(_, s) => (if s.starts_with("(?") { 3 } else { 3 }, s.clone()),
            Re::Cat(a, b) => (1, format!("{}{}", a.print(1), b.print(2 - u8::from(matches!(**b, Re::Rep(..)))))),
            Re::Alt(a, b) => (0, format!("{}|{}", a.print(0), b.print(1))),
            Re::Rep(a, _, _, s) => (1, format!("{}{}", a.print(2), s)),
            Re::Eps => return if prec == 0 { String::new() } else { "()".into() },
        };
        if p < prec {
            format!("({s})")
        } else {
            s
        }
    }
    pub fn has_eps(&self) -> bool {
        match self {
            Re::Eps => true,
            Re::Set(..) => false,
            Re::Cat(a, b) | Re::Alt(a, b) => a.has_eps() || b.has_eps(),
            Re::Rep(a, ..) => a.has_eps(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Re::Eps | Re::Set(..) => 1,
            Re::Cat(a, b) | Re::Alt(a, b) => 1 + a.size() + b.size(),
            Re::Rep(a, ..) => 1 + a.size(),
        }
    }
    /// the same expression with every empty sub-expression replaced by "any string"
    pub fn eps_as_anything(&self) -> Re {
        match self {
            Re::Eps => star(set(&[(0, MAXC)], "(?s:.)")),
            Re::Set(..) => self.clone(),
            Re::Cat(a, b) => cat(a.eps_as_anything(), b.eps_as_anything()),
            Re::Alt(a, b) => alt(a.eps_as_anything(), b.eps_as_anything()),
            Re::Rep(a, n, m, s) => Re::Rep(Box::new(a.eps_as_anything()), *n, *m, s.clone()),
        }
    }
    fn bounds(&self, out: &mut BTreeSet<u32>) {
        match self {
            Re::Set(r, _) => r.iter().for_each(|&(a, b)| {
                out.insert(a);
                out.insert(b);
            }),
            Re::Cat(a, b) | Re::Alt(a, b) => {
                a.bounds(out);
                b.bounds(out)
            }
            Re::Rep(a, ..) => a.bounds(out),
            Re::Eps => {}
        }
    }
    /// All strings of length <= n over `alpha` denoted by the expression: the textbook
    /// denotational semantics, used to check the automaton-based reference itself.
    pub fn denote(&self, alpha: &[u32], n: usize) -> BTreeSet<Vec<u32>> {
        let conc = |a: &BTreeSet<Vec<u32>>, b: &BTreeSet<Vec<u32>>| {
            let mut o = BTreeSet::new();
            for x in a {
                for y in b {
                    if x.len() + y.len() <= n {
                        let mut z = x.clone();
                        z.extend(y);
                        o.insert(z);
                    }
                }
            }
            o
        };
        match self {
            Re::Eps => [vec![]].into(),
            Re::Set(r, _) => alpha.iter().filter(|c| n >= 1 && r.iter().any(|&(a, b)| **c >= a && **c < b)).map(|c| vec![*c]).collect(),
            Re::Cat(a, b) => conc(&a.denote(alpha, n), &b.denote(alpha, n)),
            Re::Alt(a, b) => a.denote(alpha, n).union(&b.denote(alpha, n)).cloned().collect(),
            Re::Rep(a, min, max, _) => {
                let base = a.denote(alpha, n);
                let mut power: BTreeSet<Vec<u32>> = [vec![]].into();
                let mut out = BTreeSet::new();
                let mut k = 0;
                let mut seen = std::collections::HashSet::new();
                loop {
                    if k >= *min {
                        out.extend(power.iter().cloned());
                        if !seen.insert(power.clone()) && max.is_none() {
                            break;
                        }
                    }
                    if Some(k) == *max {
                        break;
                    }
                    power = conc(&power, &base);
                    k += 1;
                }
                out
            }
        }
    }
}

struct Frag {
    nullable: bool,
    first: Vec<usize>,
    last: Vec<usize>,
}
#[derive(Default)]
struct Glushkov {
    sets: Vec<Vec<(u32, u32)>>,
    follow: Vec<BTreeSet<usize>>,
}
impl Glushkov {
    fn lin(&mut self, re: &Re) -> Frag {
        match re {
            Re::Eps => Frag { nullable: true, first: vec![], last: vec![] },
            Re::Set(r, _) => {
                let p = self.sets.len();
                self.sets.push(r.clone());
                self.follow.push(BTreeSet::new());
                Frag { nullable: false, first: vec![p], last: vec![p] }
            }
            Re::Alt(a, b) => {
                let (a, b) = (self.lin(a), self.lin(b));
                Frag { nullable: a.nullable || b.nullable, first: [a.first, b.first].concat(), last: [a.last, b.last].concat() }
            }
            Re::Cat(a, b) => {
                let a = self.lin(a);
                let b = self.lin(b);
                self.join(a, b)
            }
            Re::Rep(a, min, max, _) => {
                let mut acc = Frag { nullable: true, first: vec![], last: vec![] };
                for _ in 0..*min {
                    let x = self.lin(a);
                    acc = self.join(acc, x);
                }
                match max {
                    None => {
                        let x = self.lin(a);
                        self.link(&x.last, &x.first);
                        let x = Frag { nullable: true, ..x };
                        self.join(acc, x)
                    }
                    Some(max) => {
                        // right-nested options: (x(x(x)?)?)?
                        let mut tail = Frag { nullable: true, first: vec![], last: vec![] };
                        for _ in *min..*max {
                            let x = self.lin(a);
                            tail = self.join(x, tail);
                            tail.nullable = true;
                        }
                        self.join(acc, tail)
                    }
                }
            }
        }
    }
    fn link(&mut self, from: &[usize], to: &[usize]) {
        for &f in from {
            self.follow[f].extend(to.iter().copied());
        }
    }
    fn join(&mut self, a: Frag, b: Frag) -> Frag {
        self.link(&a.last, &b.first);
        let mut first = a.first;
        if a.nullable {
            first.extend(&b.first);
        }
        let mut last = b.last;
        if b.nullable {
            last.extend(&a.last);
        }
        Frag { nullable: a.nullable && b.nullable, first, last }
    }
}

/// Determinised reference automaton of a pattern list over all of Unicode.
pub struct RefDfa {
    pub cuts: Vec<u32>,           // interval i is cuts[i]..cuts[i+1], first cut 0, last MAXC
    pub next: Vec<Vec<usize>>,    // next[state][interval]
    pub acc: Vec<Vec<usize>>,     // patterns accepted in state, ascending
    pub live: Vec<bool>,          // some accepting state reachable
}
pub const START: usize = 0;
impl RefDfa {
    pub fn new(pats: &[Re]) -> RefDfa {
        let mut g = Glushkov::default();
        let mut b = BTreeSet::from([0, MAXC]);
        let mut frags = Vec::new();
        for p in pats {
            p.bounds(&mut b);
            frags.push(g.lin(p));
        }
        let cuts: Vec<u32> = b.into_iter().collect();
        let n = g.sets.len();
        let inset: Vec<Vec<bool>> = (0..cuts.len() - 1).map(|i| (0..n).map(|p| g.sets[p].iter().any(|&(a, e)| cuts[i] >= a && cuts[i] < e)).collect()).collect();
        let mut lastof: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, f) in frags.iter().enumerate() {
            for &p in &f.last {
                if !lastof[p].contains(&i) {
                    lastof[p].push(i);
                }
            }
        }
        // start is a distinguished set: key None
        let mut ids: HashMap<Option<Vec<usize>>, usize> = HashMap::from([(None, 0)]);
        let mut order: Vec<Option<Vec<usize>>> = vec![None];
        let (mut next, mut acc) = (vec![], vec![]);
        let mut i = 0;
        while i < order.len() {
            let key = order[i].clone();
            let (cand, a): (BTreeSet<usize>, BTreeSet<usize>) = match &key {
                None => (frags.iter().flat_map(|f| f.first.iter().copied()).collect(), frags.iter().enumerate().filter(|(_, f)| f.nullable).map(|(i, _)| i).collect()),
                Some(k) => (k.iter().flat_map(|&p| g.follow[p].iter().copied()).collect(), k.iter().flat_map(|&p| lastof[p].iter().copied()).collect()),
            };
            acc.push(a.into_iter().collect::<Vec<_>>());
            let mut row = Vec::with_capacity(inset.len());
            for ins in &inset {
                let k: Vec<usize> = cand.iter().copied().filter(|&p| ins[p]).collect();
                let len = order.len();
                let id = *ids.entry(Some(k.clone())).or_insert_with(|| {
                    order.push(Some(k));
                    len
                });
                row.push(id);
            }
            next.push(row);
            i += 1;
        }
        let m = next.len();
        let mut live: Vec<bool> = acc.iter().map(|a: &Vec<usize>| !a.is_empty()).collect();
        loop {
            let mut ch = false;
            for s in 0..m {
                if !live[s] && next[s].iter().any(|&t| live[t]) {
                    live[s] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        RefDfa { cuts, next, acc, live }
    }
    pub fn interval(&self, c: u32) -> usize {
        self.cuts.partition_point(|&x| x <= c) - 1
    }
    pub fn step(&self, s: usize, c: u32) -> usize {
        self.next[s][self.interval(c)]
    }
    /// One character from each interval (first and last valid scalar value), deduplicated.
    pub fn reps(&self, both: bool) -> Vec<char> {
        let mut out = Vec::new();
        for w in self.cuts.windows(2) {
            let lo = (w[0]..w[1]).find_map(char::from_u32);
            let hi = (w[0]..w[1]).rev().find_map(char::from_u32);
            if let Some(lo) = lo {
                // prefer something printable as the representative
                if both {
                    out.push(lo);
                    if hi != Some(lo) {
                        out.push(hi.unwrap());
                    }
                } else {
                    let c = "abcdexyz0".chars().find(|c| (*c as u32) >= w[0] && (*c as u32) < w[1]).unwrap_or(lo);
                    out.push(c);
                }
            }
        }
        out
    }
    /// longest match of any pattern at the start of `s`: (length, smallest pattern index), and the
    /// number of characters after which no pattern can match any more (None: still possible at the end)
    pub fn longest(&self, s: &[char]) -> (Option<(usize, usize)>, Option<usize>) {
        let mut st = START;
        let mut best = self.acc[st].first().map(|&p| (0, p));
        for (i, &c) in s.iter().enumerate() {
            st = self.step(st, c as u32);
            if !self.live[st] {
                return (best, Some(i + 1));
            }
            if let Some(&p) = self.acc[st].first() {
                best = Some((i + 1, p));
            }
        }
        (best, None)
    }
    pub fn overlapping(&self) -> BTreeSet<(usize, usize)> {
        let mut o = BTreeSet::new();
        for a in &self.acc {
            for i in 0..a.len() {
                for j in i + 1..a.len() {
                    o.insert((a[i], a[j]));
                }
            }
        }
        o
    }
}

/// All expressions with exactly 1..=size nodes over the given leaves and unary operators.
pub fn enumerate(leaves: &[Re], unary: &[(u32, Option<u32>, &str)], size: usize) -> Vec<Vec<Re>> {
    let mut by: Vec<Vec<Re>> = vec![vec![], leaves.to_vec()];
    for n in 2..=size {
        let mut v = Vec::new();
        for r in &by[n - 1] {
            for &(a, b, s) in unary {
                // "a**" and the like need no parentheses but "a*?" would mean lazy: print() always
                // parenthesises a repetition under a repetition (precedence 1 < 2).
                v.push(rep(r.clone(), a, b, s));
            }
        }
        for l in 1..n - 1 {
            let r = n - 1 - l;
            for x in &by[l] {
                for y in &by[r] {
                    v.push(cat(x.clone(), y.clone()));
                    v.push(alt(x.clone(), y.clone()));
                }
            }
        }
        by.push(v);
    }
    by
}

pub fn all_strings(alpha: &[char], n: usize) -> Vec<Vec<char>> {
    let mut out = vec![vec![]];
    let mut layer: Vec<Vec<char>> = vec![vec![]];
    for _ in 0..n {
        let mut nl = Vec::new();
        for s in &layer {
            for &c in alpha {
                let mut t = s.clone();
                t.push(c);
                nl.push(t);
            }
        }
        out.extend(nl.iter().cloned());
        layer = nl;
    }
    out
}

/// The reference automaton must agree with the denotational semantics.
pub fn self_test() -> Result<u64, String> {
    let leaves = [ch('a'), ch('b')];
    let un: Vec<(u32, Option<u32>, &str)> = vec![(0, Some(1), "?"), (0, None, "*"), (1, None, "+"), (0, Some(0), "{0}"), (2, Some(2), "{2}"), (2, None, "{2,}"), (0, Some(2), "{0,2}"), (1, Some(3), "{1,3}")];
    let alpha = ['a', 'b'];
    let strs = all_strings(&alpha, 5);
    let codes: Vec<u32> = alpha.iter().map(|c| *c as u32).collect();
    let mut n = 0;
    for layer in enumerate(&leaves, &un, 4) {
        for re in layer {
            let d = RefDfa::new(&[re.clone()]);
            let den = re.denote(&codes, 5);
            for s in &strs {
                let mut st = START;
                for &c in s {
                    st = d.step(st, c as u32);
                }
                let k: Vec<u32> = s.iter().map(|c| *c as u32).collect();
                n += 1;
                if d.acc[st].is_empty() == den.contains(&k) {
                    return Err(format!("reference automaton wrong for {} on {:?}", re.pattern(), s));
                }
            }
        }
    }
    Ok(n)
}
