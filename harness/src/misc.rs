//! C21 (example program), C23 (laws of key types), C24 (pipeline). The macro checks C08 and C19 are
//! in `gen`.
use crate::gram::{self, Grammar, Lr, Out};
use crate::rx::{all_strings, from_syntax, RefDfa};
use crate::util::*;
use parser::{Parse, Rule, Symbol, TerminalSymbol};
use serde_json::json;
use std::borrow::Borrow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::rc::Rc;
use tokenizer::{CharRange, DFATokenizer, Tokenize};

pub use crate::gen::emit;

// ------------------------------------------------------------------ C23
fn h<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// All pairs: == is reflexive and symmetric, cmp is antisymmetric and agrees with ==, partial_cmp
/// and the operators, equal values hash alike, and `same` decides equality. All triples:
/// transitivity.
fn laws<T: Eq + Ord + Hash + Debug + Sync>(run: &mut Run, what: &'static str, v: &[T], same: impl Fn(usize, usize) -> Option<bool> + Sync) {
    let n = v.len();
    run.bound(what, json!({"values": n, "pairs": n * n, "triples": n * n * n}));
    run.par(what, n, |i, st| {
        st.add("states", 1);
        let c = |j: usize| json!({"kind": what, "a": format!("{:?}", v[i]), "b": format!("{:?}", v[j])});
        let a = &v[i];
        let mut row = vec![Ordering::Equal; n];
        for j in 0..n {
            let b = &v[j];
            st.add("transitions", 1);
            let (eq, o) = (a == b, a.cmp(b));
            row[j] = o;
            if i == j && !eq {
                return bad("a value differs from itself", c(j));
            }
            if (b == a) != eq || (a != b) == eq {
                return bad("equality is not symmetric, or != is not its negation", c(j));
            }
            if b.cmp(a) != o.reverse() {
                return bad("cmp is not antisymmetric", c(j));
            }
            if (o == Ordering::Equal) != eq {
                return bad("ordering and equality disagree", c(j));
            }
            if a.partial_cmp(b) != Some(o) || (a < b) != (o == Ordering::Less) || (a <= b) != (o != Ordering::Greater) || (a > b) != (o == Ordering::Greater) || (a >= b) != (o != Ordering::Less) {
                return bad("partial_cmp or an operator disagrees with cmp", c(j));
            }
            if eq && h(a) != h(b) {
                return bad("equal values have different hashes", c(j));
            }
            if let Some(s) = same(i, j) {
                if s != eq {
                    return bad(format!("equality is {eq}, should be {s}"), c(j));
                }
            }
        }
        for j in 0..n {
            for k in 0..n {
                let bc = v[j].cmp(&v[k]);
                if row[j] == bc && row[k] != bc || row[j] == Ordering::Equal && row[k] != bc || bc == Ordering::Equal && row[k] != row[j] {
                    return bad("cmp is not transitive", json!({"kind": what, "a": format!("{a:?}"), "b": format!("{:?}", v[j]), "c": format!("{:?}", v[k])}));
                }
            }
            st.add("traces_validated_against_impl", n as u64);
        }
        st.sample(1, "states", || c(n / 2));
        Ok(())
    });
}
pub fn c23(run: &mut Run) {
    let th = run.thorough();
    // character ranges
    let small = if th { 9u32 } else { 7 };
    let mut pts: Vec<u32> = (0..small).collect();
    pts.extend([0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, u32::MAX]);
    let mut rs = vec![];
    for &a in &pts {
        for &b in &pts {
            if a < b {
                rs.push(CharRange { range: a..b });
            }
        }
    }
    laws(run, "character ranges", &rs, |i, j| Some(rs[i].range.start == rs[j].range.start));
    run.par("character ranges as map keys", rs.len(), |i, st| {
        let r = &rs[i];
        let b: &u32 = r.borrow();
        let c = |k: &CharRange| json!({"range": format!("{:?}", r.range), "other": format!("{:?}", k.range)});
        if *b != r.range.start {
            return bad("a range does not borrow as its first code point", c(r));
        }
        if h(r) != h(b) {
            return bad("a range and the code point it borrows as hash differently", c(r));
        }
        if r.clone() != *r || r.clone().range != r.range {
            return bad("a clone differs", c(r));
        }
        for k in &rs {
            let kb: &u32 = k.borrow();
            st.add("transitions", 1);
            if (r == k) != (b == kb) || r.cmp(k) != b.cmp(kb) || r.partial_cmp(k) != b.partial_cmp(kb) {
                return bad("ranges compare differently from the code points they borrow as", c(k));
            }
            let mut hm: HashMap<CharRange, u32> = HashMap::new();
            hm.insert(r.clone(), 1);
            let mut bm: BTreeMap<CharRange, u32> = BTreeMap::new();
            bm.insert(r.clone(), 1);
            st.add("traces_validated_against_impl", 2);
            if hm.get(kb).is_some() != (b == kb) || hm.get(k).is_some() != (r == k) || bm.get(kb).is_some() != (b == kb) || bm.range(..=*kb).next_back().is_some() != (b <= kb) {
                return bad("looking a code point up in a map of ranges fails", c(k));
            }
            hm.insert(k.clone(), 2);
            bm.insert(k.clone(), 2);
            if hm.len() != if b == kb { 1 } else { 2 } || bm.len() != hm.len() {
                return bad("a map of two ranges has the wrong size", c(k));
            }
        }
        Ok(())
    });
    // rules
    let u = gram::all_rules(3, 2, true, 2);
    let mut rules: Vec<(usize, Vec<gram::Sy>)> = u.into_iter().step_by(if th { 1 } else { 2 }).collect();
    rules.push((usize::MAX, vec![gram::Sy::T(usize::MAX)]));
    rules.push((0, vec![gram::Sy::T(0), gram::Sy::N(0), gram::Sy::E, gram::Sy::T(1)]));
    rules.push((0, vec![gram::Sy::T(0), gram::Sy::N(0), gram::Sy::E]));
    // every rule twice, with different reducers
    let keys: Vec<(usize, Vec<gram::Sy>)> = rules.iter().chain(&rules).cloned().collect();
    struct S(Rule<gram::Node, gram::Tok, gram::Fault>);
    unsafe impl Sync for S {} // the reducers are plain closures without state
    impl PartialEq for S { fn eq(&self, o: &S) -> bool { self.0 == o.0 } #[allow(clippy::partialeq_ne_impl)] fn ne(&self, o: &S) -> bool { self.0 != o.0 } }
    impl Eq for S {}
    impl PartialOrd for S { fn partial_cmp(&self, o: &S) -> Option<Ordering> { self.0.partial_cmp(&o.0) } }
    impl Ord for S { fn cmp(&self, o: &S) -> Ordering { self.0.cmp(&o.0) } }
    impl Hash for S { fn hash<H: Hasher>(&self, s: &mut H) { self.0.hash(s) } }
    impl Debug for S { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
    let rv: Vec<S> = keys.iter().enumerate().map(|(i, (l, r))| S(Rule::new_raw(*l, &gram::raw_rhs(r), move |x| gram::reduce(i, 0, x)))).collect();
    laws(run, "rules", &rv, |i, j| Some(keys[i] == keys[j]));
    run.par("rules as map keys", rv.len(), |i, st| {
        for j in 0..rv.len() {
            let hs: std::collections::HashSet<&S> = [&rv[i], &rv[j]].into();
            let bs: BTreeSet<&S> = [&rv[i], &rv[j]].into();
            st.add("traces_validated_against_impl", 2);
            let want = if keys[i] == keys[j] { 1 } else { 2 };
            if hs.len() != want || bs.len() != want {
                return bad("a set of two rules has the wrong size", json!({"a": format!("{:?}", rv[i]), "b": format!("{:?}", rv[j])}));
            }
        }
        Ok(())
    });
    // symbols and terminal symbols, over data of every kind
    let vals = [0usize, 1, 2, 7, 255, 256, usize::MAX];
    let mut sy: Vec<Symbol<usize, usize, usize>> = vec![];
    for v in vals {
        sy.extend([Symbol::NonTerminal(v), Symbol::Terminal(v), Symbol::Error(v)]);
    }
    let k: Vec<(u8, usize)> = sy.iter().map(|s| match s { Symbol::NonTerminal(v) => (0, *v), Symbol::Terminal(v) => (1, *v), Symbol::Error(v) => (2, *v) }).collect();
    laws(run, "symbols", &sy, |i, j| Some(k[i] == k[j]));
    let mut ty: Vec<TerminalSymbol<usize, usize>> = vec![TerminalSymbol::EOI];
    for v in vals {
        ty.extend([TerminalSymbol::Symbol(v), TerminalSymbol::Error(v)]);
    }
    let k: Vec<(u8, usize)> = ty.iter().map(|s| match s { TerminalSymbol::Symbol(v) => (0, *v), TerminalSymbol::Error(v) => (1, *v), TerminalSymbol::EOI => (2, 0) }).collect();
    laws(run, "terminal symbols", &ty, |i, j| Some(k[i] == k[j]));
    run.par("clones", sy.len().max(ty.len()), |i, st| {
        st.add("traces_validated_against_impl", 1);
        if sy.get(i).map(|s| s.clone() != *s).unwrap_or(false) || ty.get(i).map(|s| s.clone() != *s).unwrap_or(false) {
            return bad("a clone differs from the original", json!({"index": i}));
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C24
struct Pipe {
    name: &'static str,
    pats: &'static [&'static str],
    /// patterns whose tokens are dropped before the parser
    skip: &'static [usize],
    /// grammar over the token kinds t<pattern index>, in the notation of Grammar::parse
    rules: &'static [&'static str],
    alpha: &'static str,
}
const PIPES: [Pipe; 8] = [
    Pipe { name: "calculator", pats: &["[0-9]+(\\.[0-9]+)?", "\\+", "\\*", "\\(", "\\)", "[ \n]+"], skip: &[5], rules: &["0: 0 t1 1", "0: 1", "1: 1 t2 2", "1: 2", "2: t0", "2: t3 0 t4"], alpha: "1.+*() x" },
    Pipe { name: "calculator with recovery", pats: &["[0-9]+", "\\+", "\\*", "\\(", "\\)", ".|\n"], skip: &[5], rules: &["0: 0 t1 1", "0: 1", "1: 1 t2 2", "1: 2", "2: t0", "2: t3 0 t4", "2: t3 E t4"], alpha: "1+*() " },
    Pipe { name: "operators of growing length", pats: &["=", "==", "===>", "a+", "<=*>", "<"], skip: &[], rules: &["0: 1 0", "0:", "1: t3 t0 t3", "1: t3 t1 t3", "1: t2", "1: t4 t3", "1: t5"], alpha: "=><a" },
    Pipe { name: "statements", pats: &["let", "[a-z]+", "=", ";", " "], skip: &[4], rules: &["0: 0 1 t3", "0:", "1: t0 t1 t2 t1", "1: t1", "1: E"], alpha: "let=; x" },
    Pipe { name: "strings and comments", pats: &["\"[^\"]*\"", "/\\*([^*]|\\*[^/])*\\*/", ",", "/", "\\*"], skip: &[1], rules: &["0: t0", "0: 0 t2 t0", "0: 0 t3 t0"], alpha: "\"/*,a" },
    Pipe { name: "empty language tail", pats: &["ab", "a", "b"], skip: &[2], rules: &["0: t0 1", "1:", "1: t1 1"], alpha: "abc" },
    Pipe { name: "everything dropped", pats: &["a", "b"], skip: &[0, 1], rules: &["0:", "0: t0"], alpha: "abc" },
    Pipe { name: "only end of input accepted", pats: &["[ab]*c", "a", "b"], skip: &[], rules: &["0: t1 t2 t0", "0: t1"], alpha: "abc" },
];
fn pipe_grammar(p: &Pipe) -> Grammar {
    let rules = p
        .rules
        .iter()
        .map(|r| {
            let (l, r) = r.split_once(':').unwrap();
            let s = r.split_whitespace().map(|x| if x == "E" { gram::Sy::E } else if let Some(t) = x.strip_prefix('t') { gram::Sy::T(t.parse().unwrap()) } else { gram::Sy::N(x.parse().unwrap()) }).collect();
            (l.parse().unwrap(), s)
        })
        .collect();
    Grammar { start: 0, rules }
}
struct Chars {
    w: Rc<Vec<char>>,
    pos: usize,
    pulls: Rc<Cell<usize>>,
}
impl Iterator for Chars {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.pulls.set((self.pulls.get() + 1).min(self.w.len() + 1));
        gram::set_pulled(self.pulls.get());
        let c = self.w.get(self.pos).copied();
        self.pos += 1;
        c
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.w.len().saturating_sub(self.pos);
        match self.w.len() % 3 {
            0 => (left, Some(left)),
            1 => (left, None),
            _ => (0, None),
        }
    }
}
pub fn c24(run: &mut Run) {
    let th = run.thorough();
    for p in &PIPES {
        let g = pipe_grammar(p);
        let lr = Lr::new(&g);
        assert!(lr.conflicts.is_empty(), "{} has conflicts", p.name);
        let alpha: Vec<char> = p.alpha.chars().collect();
        let n = match (alpha.len(), th) { (0..=4, false) => 9, (5..=6, false) => 7, (_, false) => 6, (0..=4, true) => 11, (5..=6, true) => 8, _ => 7 };
        let mut texts = all_strings(&alpha, n);
        let all = texts.len();
        // and long ones: every short text repeated, alone and behind another
        let unit = all_strings(&alpha, 2);
        for u in unit.iter().filter(|u| !u.is_empty()) {
            for k in if th { vec![17, 33, 65, 129, 257] } else { vec![17, 65, 130] } {
                let mut w: Vec<char> = u.iter().copied().cycle().take(u.len() * k).collect();
                texts.push(w.clone());
                w.extend(&alpha[..1]);
                texts.push(w.clone());
                w.insert(0, alpha[alpha.len() - 1]);
                texts.push(w);
            }
        }
        // an unexpected character after a long text
        for u in unit.iter().filter(|u| !u.is_empty()) {
            for n in crate::fam::sizes(if th { 1100 } else { 300 }) {
                for &c in &alpha {
                    let mut w: Vec<char> = u.iter().copied().cycle().take(n as usize).collect();
                    w.push(c);
                    w.extend(u.iter().chain(u).chain(u));
                    texts.push(w);
                }
            }
        }
        run.bound(p.name, json!({"patterns": p.pats, "grammar": g.show(), "alphabet": p.alpha, "all texts of length up to": n, "texts": all, "long texts": texts.len() - all}));
        let rd = RefDfa::new(&p.pats.iter().map(|s| from_syntax(s)).collect::<Vec<_>>());
        run.stats.add("states", (rd.acc.len() + lr.states()) as u64);
        run.stats.add("transitions", lr.transitions + (rd.acc.len() * rd.cuts.len()) as u64);
        let chunk = texts.len().div_ceil(64).max(1);
        run.par(p.name, texts.len().div_ceil(chunk), |b, st| {
            let strs: Vec<String> = p.pats.iter().map(|s| s.to_string()).collect();
            set_group(|| json!({"pipeline": p.name}));
            let mk = || {
                let mut t = DFATokenizer::<gram::Tok, char>::builder();
                let mut o = DFATokenizer::<Option<gram::Tok>, char>::builder();
                for (i, s) in strs.iter().enumerate() {
                    let skip = p.skip.contains(&i);
                    t = t.pattern(s, move |_, _| gram::Tok { kind: i, id: 0 });
                    o = o.pattern(s, move |_, _| if skip { None } else { Some(gram::Tok { kind: i, id: 0 }) });
                }
                (t.build().map(|x| x.0).map_err(|e| format!("{e:?}")), o.build().map(|x| x.0).map_err(|e| format!("{e:?}")))
            };
            let (tk, to) = match guard(mk) {
                Ok((Ok(a), Ok(b))) => (a, b),
                _ => return bad("the tokenizer of the pipeline cannot be built", json!({"pipeline": p.name})),
            };
            let (ps, _) = gram::build(&g)?;
            let number = || {
                let mut k = 0;
                move |mut t: gram::Tok| {
                    t.id = k;
                    k += 1;
                    t
                }
            };
            for w in &texts[b * chunk..texts.len().min(b * chunk + chunk)] {
                let text: String = w.iter().collect();
                set_input(&text);
                let src = Rc::new(w.clone());
                let pulls = Rc::new(Cell::new(0));
                let open = || {
                    pulls.set(0);
                    Chars { w: src.clone(), pos: 0, pulls: pulls.clone() }
                };
                let c = || json!({"pipeline": p.name, "text": text});
                let cap = gram::cap_for(w.len());
                let finish = |r: Result<Result<gram::Node, parser::ParseError<gram::Fault>>, String>| -> (Out, Vec<gram::Call>, usize) {
                    let out = match r {
                        Err(e) => Out::Panic(e),
                        Ok(Ok(n)) => Out::Ok(n.serial),
                        Ok(Err(parser::ParseError::RecoveryRuleNotFound)) => Out::NotFound,
                        Ok(Err(parser::ParseError::ErrorInReducer(f))) => if f.0 >= cap { Out::Loop } else { Out::Fault(f.0) },
                    };
                    (out, gram::log_take(), pulls.get())
                };
                // collected first
                gram::log_begin(cap, usize::MAX);
                let toks = match guard(|| open().tokenize(&tk).take(w.len() + 3).filter(|t| !p.skip.contains(&t.kind)).map(number()).collect::<Vec<_>>()) {
                    Ok(t) => t,
                    Err(e) => return bad(format!("tokenizing panicked: {e}"), c()),
                };
                let kinds: Vec<usize> = toks.iter().map(|t| t.kind).collect();
                let batch = finish(guard(|| toks.into_iter().parse(&ps)));
                // tokens asked for before each reducer call
                gram::run(&ps, &kinds, usize::MAX);
                let asked = gram::last_call_pulls();
                // filtered lazily
                gram::log_begin(cap, usize::MAX);
                let lazy = finish(guard(|| open().tokenize(&tk).filter(|t| !p.skip.contains(&t.kind)).map(number()).parse(&ps)));
                let lazy_at = gram::last_call_pulls();
                // flattened options, tokenizer and items by value of a map
                gram::log_begin(cap, usize::MAX);
                let flat = finish(guard(|| open().tokenize_with(&to, |c: &char| *c).flatten().map(number()).parse(&ps)));
                let flat_at = gram::last_call_pulls();
                st.add("traces_validated_against_impl", 3);
                for (how, r) in [("filtered", &lazy), ("flattened", &flat)] {
                    if (&r.0, &r.1) != (&batch.0, &batch.1) {
                        return bad(format!("{how} pipeline gives {:?} with calls {:?}, collecting first gives {:?} with calls {:?}", r.0, r.1, batch.0, batch.1), c());
                    }
                }
                if let Out::Panic(e) = &batch.0 {
                    return bad(format!("parsing panicked: {e}"), c());
                }
                // characters needed to deliver the offending token, or to see that nothing matches any more
                {
                    let k = if batch.0 == Out::NotFound && !g.has_error() { if kinds.len() <= 40 { gram::viable_prefix(&g, &kinds) } else { lr.run(&kinds).pulls - 1 } } else { kinds.len() }; // tokens 0..k are viable, token k is not
                    {
                        st.add(if batch.0 == Out::NotFound { "syntax_errors" } else { "texts_parsed" }, 1);
                        let (mut pos, mut seen, mut need) = (0, 0, 0);
                        // characters that decide the first, second, ... token
                        let mut decided = vec![0];
                        loop {
                            let (best, dead) = rd.longest(&w[pos..]);
                            need = need.max(dead.map(|d| pos + d).unwrap_or(usize::MAX));
                            let Some((l, pat)) = best else { break };
                            if !p.skip.contains(&pat) {
                                seen += 1;
                                decided.push(need);
                                if seen == k + 1 {
                                    break;
                                }
                            }
                            pos += l;
                            if l == 0 {
                                break;
                            }
                        }
                        for (how, at) in [("filtered", &lazy_at), ("flattened", &flat_at)] {
                            for (j, (chars, toks)) in at.iter().zip(&asked).enumerate() {
                                let most = decided.get(*toks).copied().unwrap_or(need);
                                if *chars > most {
                                    return bad(format!("{how} pipeline read {chars} characters before reducer call {j}; the {toks} tokens it asked for are decided after {most}"), c());
                                }
                            }
                        }
                        for (how, r) in [("filtered", &lazy), ("flattened", &flat)] {
                            if r.2 > need {
                                return bad(format!("{how} pipeline read {} characters; the last token it needs (number {k}, or the end) is decided after {need}", r.2), c());
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C21
#[derive(Clone, Debug, PartialEq)]
enum Lx {
    Num(f64),
    Op(char),
    Sqrt,
}
/// The documented number and operator notation, written by hand.
fn lex(s: &str) -> Vec<Lx> {
    let c: Vec<char> = s.chars().collect();
    let dig = |i: usize| c.get(i).map(|x| x.is_ascii_digit()).unwrap_or(false);
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let mut j = i;
        while dig(j) {
            j += 1;
        }
        let whole = j - i;
        let mut end = if whole > 0 { j } else { i };
        if c.get(j) == Some(&'.') {
            let mut k = j + 1;
            while dig(k) {
                k += 1;
            }
            if whole > 0 || k > j + 1 {
                end = k;
            }
        }
        if end > i {
            if matches!(c.get(end), Some('e' | 'E')) {
                let mut k = end + 1;
                if matches!(c.get(k), Some('+' | '-')) {
                    k += 1;
                }
                if dig(k) {
                    while dig(k) {
                        k += 1;
                    }
                    end = k;
                }
            }
            let t: String = c[i..end].iter().collect();
            out.push(Lx::Num(t.parse().expect("number notation")));
            i = end;
        } else if c[i..].starts_with(&['s', 'q', 'r', 't']) {
            out.push(Lx::Sqrt);
            i += 4;
        } else {
            if "+-*/()".contains(c[i]) {
                out.push(Lx::Op(c[i]));
            }
            i += 1;
        }
    }
    out
}
fn eval(s: &str) -> Option<f64> {
    let t = lex(s);
    fn block(t: &[Lx], i: &mut usize) -> Option<f64> {
        match t.get(*i)? {
            Lx::Num(n) => {
                *i += 1;
                Some(*n)
            }
            Lx::Sqrt => {
                *i += 1;
                block(t, i).map(f64::sqrt)
            }
            Lx::Op(c @ ('+' | '-')) => match t.get(*i + 1)? {
                Lx::Num(n) => {
                    *i += 2;
                    Some(if *c == '-' { -*n } else { *n })
                }
                _ => None,
            },
            Lx::Op('(') => {
                *i += 1;
                let v = sum(t, i)?;
                if t.get(*i) != Some(&Lx::Op(')')) {
                    return None;
                }
                *i += 1;
                Some(v)
            }
            _ => None,
        }
    }
    fn product(t: &[Lx], i: &mut usize) -> Option<f64> {
        let mut v = block(t, i)?;
        while let Some(Lx::Op(c @ ('*' | '/'))) = t.get(*i) {
            *i += 1;
            let b = block(t, i)?;
            v = if *c == '*' { v * b } else { v / b };
        }
        Some(v)
    }
    fn sum(t: &[Lx], i: &mut usize) -> Option<f64> {
        let mut v = product(t, i)?;
        while let Some(Lx::Op(c @ ('+' | '-'))) = t.get(*i) {
            *i += 1;
            let b = product(t, i)?;
            v = if *c == '+' { v + b } else { v - b };
        }
        Some(v)
    }
    let mut i = 0;
    let v = sum(&t, &mut i)?;
    if i == t.len() {
        Some(v)
    } else {
        None
    }
}
/// What the example did on some input.
struct Answer {
    lines: Vec<String>,
    /// Some(success) when it ended by itself, None when it went on answering after its input ended
    ended: Option<bool>,
}
const EXTRA: usize = 60;
/// Runs the example on `input` until it ends or has printed EXTRA lines more than `want`.
fn example(bin: &str, input: &str, id: &str, want: usize) -> Result<Answer, String> {
    let dir = format!("{}/target/c21", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{dir}/{}-{id}", std::process::id());
    std::fs::write(&f, input).expect("write scratch input");
    let stdin = std::fs::File::open(&f).unwrap();
    let mut ch = std::process::Command::new(bin).stdin(stdin).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).current_dir(&dir).spawn().expect("start the example");
    let _ = std::fs::remove_file(&f);
    let mut so = ch.stdout.take().unwrap();
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let d2 = done.clone();
    let pid = ch.id();
    let killer = std::thread::spawn(move || {
        let t = std::time::Instant::now();
        while !d2.load(std::sync::atomic::Ordering::SeqCst) {
            if t.elapsed().as_secs() > 120 {
                unsafe {
                    kill(pid as i32, 9);
                }
                return true;
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        false
    });
    let mut out: Vec<u8> = vec![];
    let mut buf = vec![0u8; 1 << 16];
    let mut over = false;
    let mut nl = 0;
    loop {
        match so.read(&mut buf) {
            Ok(0) | Err(_) => break,
            Ok(n) => {
                nl += buf[..n].iter().filter(|b| **b == b'\n').count();
                out.extend_from_slice(&buf[..n]);
            }
        }
        if nl > want + EXTRA || out.len() > 2000 * want + 10_000_000 {
            over = true;
            done.store(true, std::sync::atomic::Ordering::SeqCst);
            let _ = ch.kill();
            break;
        }
    }
    let status = ch.wait().expect("wait");
    done.store(true, std::sync::atomic::Ordering::SeqCst);
    if killer.join().unwrap() {
        return Err("the example neither answered nor ended within 120 s".into());
    }
    let mut lines: Vec<String> = String::from_utf8_lossy(&out).lines().map(|l| l.to_string()).collect();
    if over {
        lines.truncate(want + EXTRA);
    }
    Ok(Answer { lines, ended: if over { None } else { Some(status.success()) } })
}
extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}
fn judge(bin: &str, banner: usize, lines: &[String], last_newline: bool, id: &str, st: &mut Stats) -> R {
    let mut input = lines.join("\n");
    if last_newline && !lines.is_empty() {
        input.push('\n');
    }
    let show = |i: usize| json!({"lines": lines.iter().skip(i.saturating_sub(2)).take(3).collect::<Vec<_>>(), "line_number": i, "total_lines": lines.len(), "last_line_terminated": last_newline});
    let last = lines.len().saturating_sub(1);
    let a = match example(bin, &input, id, banner + lines.len()) {
        Ok(x) => x,
        Err(e) => return bad(e, show(last)),
    };
    let got: Vec<&str> = a.lines.iter().skip(banner).map(|s| s.as_str()).collect();
    for (i, l) in lines.iter().enumerate() {
        st.add("traces_validated_against_impl", 1);
        let want = eval(l);
        let Some(g) = got.get(i) else {
            return bad(format!("no answer to line {i} {l:?}"), show(i));
        };
        let v = g.strip_prefix("= ").and_then(|x| x.trim().parse::<f64>().ok());
        match (want, v) {
            (None, None) if !g.starts_with('=') => st.add("lines_rejected", 1),
            (Some(a), Some(b)) if a == b || a.is_nan() && b.is_nan() => st.add("values_compared", 1),
            _ => return bad(format!("line {l:?} is answered {g:?}, expected {}", want.map(|v| format!("= {v}")).unwrap_or("an error".into())), show(i)),
        }
        st.sample(50_000, "traces_validated_against_impl", || json!({"line": l, "answer": g}));
    }
    st.add("transitions", lines.len() as u64 + 1);
    let more = &got[lines.len().min(got.len())..];
    match a.ended {
        Some(true) if more.is_empty() => Ok(()),
        Some(true) => bad(format!("{} answers to {} lines", got.len(), lines.len()), show(last)),
        Some(false) => bad("the example fails at the end of its input", show(last)),
        // reading on after the end of the input: it sees empty lines for ever and rejects each
        None if more.iter().all(|m| !m.starts_with('=') && *m == more[0]) => {
            *st.known.entry("example-does-not-stop-at-end-of-input".into()).or_insert(0) += 1;
            Ok(())
        }
        None => bad("the example keeps answering after the end of its input", show(last)),
    }
}
pub fn c21(run: &mut Run, bin: &str) {
    let th = run.thorough();
    // what it prints before the first answer
    let banner = match example(bin, "1+2\n", "banner", 20).map(|a| a.lines.iter().position(|l| l == "= 3")) {
        Ok(Some(n)) => n,
        Ok(None) => {
            run.violation = Some(Violation { order: 0, why: "the line \"1+2\" is not answered \"= 3\"".into(), case: json!({"lines": ["1+2"]}) });
            return;
        }
        Err(e) => {
            run.violation = Some(Violation { order: 0, why: e, case: json!({"lines": ["1+2"]}) });
            return;
        }
    };
    let mut groups: Vec<(&'static str, Vec<String>)> = vec![];
    // token sequences; the i-th number of a line is the i-th of these
    const NUM: [&str; 8] = ["7", "2", "0.5", "3", "11", "1e2", "5", "13"];
    let seq = |n: usize, toks: &[&str]| -> Vec<String> {
        crate::gram::words(&(0..toks.len()).collect::<Vec<_>>(), n)
            .into_iter()
            .map(|w| {
                let mut k = 0;
                let mut s = String::new();
                for t in w {
                    if toks[t] == "N" {
                        // numbers that touch would merge into one
                        if s.ends_with(|c: char| c.is_ascii_digit()) {
                            s.push(' ');
                        }
                        s.push_str(NUM[k % 8]);
                        k += 1;
                    } else {
                        s.push_str(toks[t]);
                    }
                }
                s
            })
            .collect()
    };
    groups.push(("all token sequences", seq(if th { 7 } else { 6 }, &["N", "+", "-", "*", "/", "(", ")", "sqrt"])));
    groups.push(("all sequences with spaces and foreign characters", seq(if th { 6 } else { 5 }, &["N", "-", "*", "(", ")", " ", "x", "sqr", "t", "\t"])));
    let num = all_strings(&['1', '0', '.', 'e', 'E', '+', '-'], if th { 7 } else { 6 });
    groups.push(("all number notations", num.into_iter().map(|w| w.into_iter().collect()).collect()));
    let mut ops = vec![];
    for w in crate::gram::words(&[0, 1, 2, 3], if th { 8 } else { 7 }) {
        let mut s = NUM[0].to_string();
        for (i, o) in w.iter().enumerate() {
            s.push(['+', '-', '*', '/'][*o]);
            s.push_str(NUM[(i + 1) % 8]);
        }
        ops.push(s);
    }
    groups.push(("all operator chains", ops));
    // values for which the order of evaluation, rounding, zero, infinity and NaN show
    const VAL: [&str; 9] = ["0", "1", "2", "0.1", "1e308", "3", "9007199254740993", "-0", "1e-320"];
    let vals = if th { &VAL[..] } else { &VAL[..6] };
    let mut of_values = vec![];
    for n in 1..=4usize {
        for w in crate::gram::words(&(0..vals.len()).collect::<Vec<_>>(), n).into_iter().filter(|w| w.len() == n) {
            for o in crate::gram::words(&[0, 1, 2, 3], n - 1).into_iter().filter(|o| o.len() == n - 1) {
                let mut s = vals[w[0]].to_string();
                for (i, o) in o.iter().enumerate() {
                    s.push(['+', '-', '*', '/'][*o]);
                    s.push_str(vals[w[i + 1]]);
                }
                if n < 4 {
                    of_values.push(format!("sqrt({s})"));
                    of_values.push(format!("({s})*0-{s}"));
                }
                if n == 3 {
                    let c = s.find(|c: char| "+-*/".contains(c)).unwrap_or(0);
                    if c > 0 {
                        of_values.push(format!("{}({})", &s[..=c], &s[c + 1..]));
                    }
                }
                of_values.push(s);
            }
        }
    }
    groups.push(("operator chains over telling values", of_values));
    // all parenthesisations of chains of up to 5 numbers
    fn paren(n: usize, from: usize) -> Vec<String> {
        if n == 1 {
            return vec![NUM[from % 8].to_string(), format!("-{}", NUM[from % 8]), format!("sqrt {}", NUM[from % 8])];
        }
        let mut v = vec![];
        for k in 1..n {
            for a in paren(k, from) {
                for b in paren(n - k, from + k) {
                    for o in ["+", "-", "*", "/"] {
                        v.push(format!("({a}{o}{b})"));
                        if n < 3 {
                            v.push(format!("sqrt({a}{o}{b})"));
                        }
                    }
                }
            }
        }
        v
    }
    let mut par: Vec<String> = (1..=if th { 4 } else { 3 }).flat_map(|n| paren(n, 0)).collect();
    par.extend((1..=5).flat_map(|n| {
        // one number per leaf, minus and division only: associativity made visible
        fn p(n: usize, f: usize) -> Vec<String> {
            if n == 1 {
                return vec![NUM[f % 8].into()];
            }
            (1..n).flat_map(|k| p(k, f).into_iter().flat_map(move |a| p(n - k, f + k).into_iter().flat_map(move |b| [format!("({a}-{b})"), format!("({a}/{b})")]))).collect()
        }
        p(n, 0)
    }));
    groups.push(("all parenthesisations", par));
    let mut odd: Vec<String> = vec!["".into(), " ".into(), "\r".into(), "1\r".into(), "1+2\r".into()];
    for base in ["1+2", "12", "sqrt4", "(3)", "1e5", "-1"] {
        let b: Vec<char> = base.chars().collect();
        for i in 0..=b.len() {
            for x in (0u32..0x250).chain(crate::fam::POINTS.iter().map(|c| *c as u32)).chain([0x660, 0xff11, 0x2028, 0x2212, 0xd7, 0xf7, 0x1d7d9]) {
                let Some(x) = char::from_u32(x) else { continue };
                if x == '\n' {
                    continue;
                }
                let mut w = b.clone();
                w.insert(i, x);
                odd.push(w.into_iter().collect());
            }
        }
    }
    for n in [1usize, 2, 3, 10, 50, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 3000, 5000] {
        odd.push(format!("{}1{}", "(".repeat(n), ")".repeat(n)));
        odd.push(format!("{}1{}", "(".repeat(n), ")".repeat(n - 1)));
        odd.push(format!("{}4", "sqrt ".repeat(n)));
        odd.push(vec!["2"; n].join("-"));
        odd.push(vec!["2"; n].join("/"));
        odd.push("9".repeat(n));
        odd.push(format!("1e{}", "9".repeat(n.min(30))));
        odd.push(format!("0.{}1", "0".repeat(n)));
    }
    groups.push(("every character at every place; deep and long lines", odd));
    let per = 2000;
    for (name, lines) in &groups {
        run.bound(name, json!({"lines": lines.len()}));
        run.stats.add("states", lines.iter().collect::<BTreeSet<_>>().len() as u64);
        run.par(name, lines.len().div_ceil(per), |i, st| {
            set_group(|| json!({"group": name}));
            judge(bin, banner, &lines[i * per..lines.len().min(i * per + per)], true, &format!("{name}{i}").replace(|c: char| !c.is_alphanumeric(), "_"), st)
        });
    }
    // histories: every sequence of up to 3 lines from a mixed set, with and without final newline
    let set: Vec<&str> = if th { vec!["1+2", "", "(", "sqrt 9", "1..2", "x", "4-", "-3*2", "2 2"] } else { vec!["1+2", "", "(", "sqrt 9", "4-", "2 2"] };
    let hist: Vec<Vec<usize>> = crate::gram::words(&(0..set.len()).collect::<Vec<_>>(), 3);
    run.bound("line histories", json!({"lines": set, "histories": 2 * hist.len()}));
    run.stats.add("states", 2 * hist.len() as u64);
    run.par("line histories", hist.len() * 2, |i, st| {
        let mut lines: Vec<String> = hist[i / 2].iter().map(|k| set[*k].to_string()).collect();
        let nl = i % 2 == 0;
        if !nl && lines.last().map(|l| l.is_empty()).unwrap_or(false) {
            // an unterminated empty last line is no line
            lines.pop();
            return judge(bin, banner, &lines, true, &format!("h{i}"), st);
        }
        judge(bin, banner, &lines, nl, &format!("h{i}"), st)
    });
}
