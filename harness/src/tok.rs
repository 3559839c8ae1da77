//! Driving the real tokenizer and comparing it with the reference automaton.
use crate::rx::*;
use crate::util::*;
use serde_json::{json, Value};
use std::cell::Cell;
#[cfg(feature = "tables")]
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use tokenizer::{DFATokenizer, Tokenize};

/// Input item: deliberately neither Clone nor Copy, so that it cannot be duplicated.
#[derive(Debug, PartialEq, Eq)]
pub struct Item {
    pub c: char,
    pub id: usize,
}
#[derive(Debug)]
pub struct Tok {
    pub pat: usize,
    pub text: String,
    pub items: Vec<Item>,
}
pub type Real = DFATokenizer<Tok, Item>;

/// Builds the real tokenizer from pattern strings. Err(_) = panic; Ok(Err(_)) = build error.
pub fn build_strs(pats: &[String]) -> Result<Result<(Real, Vec<String>), String>, String> {
    guard(|| {
        let mut b = DFATokenizer::<Tok, Item>::builder();
        for (i, p) in pats.iter().enumerate() {
            // spare capacity is not what is judged
            b = b.pattern(p, move |s, mut items: Vec<Item>| {
                items.shrink_to_fit();
                Tok { pat: i, text: s.to_string(), items }
            });
        }
        match b.build() {
            Ok((t, w)) => Ok((t, w.iter().map(|w| format!("{w:?}")).collect())),
            Err(e) => Err(format!("{e:?}")),
        }
    })
}
pub fn pats_of(res: &[Re]) -> Vec<String> {
    res.iter().map(|r| r.pattern()).collect()
}
pub fn build_ok(p: &[String]) -> Result<(Real, Vec<String>), Violation> {
    set_group(|| json!({"patterns": p}));
    match build_strs(p) {
        Err(e) => bad(format!("building the tokenizer panicked: {e}"), json!({"patterns": p})),
        Ok(Err(e)) => bad(format!("building the tokenizer was refused: {e}"), json!({"patterns": p})),
        Ok(Ok(x)) => Ok(x),
    }
}

#[cfg(feature = "tables")]
/// Steps the real automaton's table for one code point.
pub fn table_step(t: &Real, s: usize, c: u32) -> Option<usize> {
    t.goto[s].iter().find(|(r, _)| r.range.start <= c && c < r.range.end).map(|(_, n)| *n)
}

#[cfg(feature = "tables")]
pub struct Product {
    pub states: u64,
    pub transitions: u64,
    /// access strings of all product states whose reference side is live (plus the start)
    pub access: Vec<Vec<char>>,
}

#[cfg(feature = "tables")]
/// Explicit-state exploration of (state of the real automaton) x (state of the reference
/// automaton) over every code point: decides language equality for strings of every length.
pub fn product(t: &Real, r: &RefDfa) -> Result<Product, (String, String)> {
    let mut seen: HashMap<(usize, usize), usize> = HashMap::new();
    let mut access: Vec<Vec<char>> = vec![vec![]];
    let mut q = VecDeque::from([(t.begin, START)]);
    seen.insert((t.begin, START), 0);
    let mut transitions = 0u64;
    let chk = |ts: usize, rs: usize, w: &[char]| -> Result<(), (String, String)> {
        let a = t.end.get(&ts).copied();
        let b = r.acc[rs].first().copied();
        if a != b {
            let s: String = w.iter().collect();
            return Err((s.clone(), format!("after {s:?} the tokenizer's automaton accepts {a:?}, the regular expressions say {b:?}")));
        }
        Ok(())
    };
    chk(t.begin, START, &[])?;
    while let Some((ts, rs)) = q.pop_front() {
        let w = access[seen[&(ts, rs)]].clone();
        let mut cuts: Vec<u32> = r.cuts.clone();
        for (k, _) in t.goto[ts].iter() {
            cuts.push(k.range.start.min(MAXC));
            cuts.push(k.range.end.min(MAXC));
        }
        cuts.sort_unstable();
        cuts.dedup();
        // overlap of real ranges would make the table ambiguous
        let mut prev_end = 0;
        for (k, _) in t.goto[ts].iter() {
            if k.range.start < prev_end || k.range.end <= k.range.start {
                return Err((w.iter().collect(), format!("overlapping or empty transition ranges in one state: {:?}", t.goto[ts].keys().map(|k| k.range.clone()).collect::<Vec<_>>())));
            }
            prev_end = k.range.end;
        }
        for win in cuts.windows(2) {
            let Some(c) = (win[0]..win[1]).find_map(char::from_u32) else { continue };
            transitions += 1;
            let rn = r.step(rs, c as u32);
            let mut w2 = w.clone();
            w2.push(c);
            match table_step(t, ts, c as u32) {
                None => {
                    if r.live[rn] {
                        // find a witness continuation
                        let s: String = w2.iter().collect();
                        return Err((s.clone(), format!("the tokenizer gives up after {s:?} although a pattern can still match")));
                    }
                }
                Some(tn) => {
                    if tn >= t.goto.len() {
                        return Err((w2.iter().collect(), format!("transition to a state {tn} that does not exist")));
                    }
                    if !seen.contains_key(&(tn, rn)) {
                        chk(tn, rn, &w2)?;
                        seen.insert((tn, rn), access.len());
                        access.push(w2);
                        q.push_back((tn, rn));
                        if access.len() > 200_000 {
                            return Err((String::new(), "product automaton exceeds 200000 states".into()));
                        }
                    }
                }
            }
        }
    }
    Ok(Product { states: access.len() as u64, transitions, access })
}

/// Source iterator that counts pulls.
pub struct Source {
    pub chars: Rc<Vec<char>>,
    pub pos: usize,
    pub pulls: Rc<Cell<usize>>,
    /// Some(c): the source never ends, c is repeated for ever
    pub endless: Option<char>,
}
impl Iterator for Source {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        let i = self.pos;
        self.pulls.set(self.pulls.get() + 1);
        if i < self.chars.len() {
            self.pos += 1;
            Some(Item { c: self.chars[i], id: i })
        } else if let Some(c) = self.endless {
            if self.pos > self.chars.len() + 10_000 {
                panic!("more than 10000 items read past the point where nothing can match");
            }
            self.pos += 1;
            Some(Item { c, id: i })
        } else {
            None
        }
    }
    // truthful in each of the ways; the tokenizer must not depend on it
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.endless.is_some() {
            return if self.chars.len() % 2 == 0 { (1 << 16, None) } else { (0, None) };
        }
        let left = self.chars.len() - self.pos;
        match if self.chars.len() > 1000 { 0 } else { self.chars.iter().fold(self.chars.len() as u32, |a, b| a.wrapping_mul(3).wrapping_add(*b as u32)) % 3 } {
            0 => (left, Some(left)),
            1 => (0, None),
            _ => (left, None),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Tokens,
    Conserve,
    Lookahead,
}

/// Tokenizes `input` with the real iterator (at most `limit` tokens) and checks one property.
pub fn stream(t: &Real, r: &RefDfa, input: &[char], limit: usize, what: What) -> Result<usize, String> {
    stream_from(t, r, input, limit, what, None)
}
/// `endless`: Some(c) appends an infinite tail of c, a character no pattern can use; `input` must
/// then already end with it (so that the reference sees where matching becomes impossible).
pub fn stream_from(t: &Real, r: &RefDfa, input: &[char], limit: usize, what: What, endless: Option<char>) -> Result<usize, String> {
    judge(|src, pulls| drain(src.tokenize_with(t, |i: &Item| i.c), pulls, limit), r, input, what, endless)
}
/// The same with the tokenizer passed by value.
pub fn stream_by_value(t: Real, r: &RefDfa, input: &[char], limit: usize, what: What) -> Result<usize, String> {
    judge(|src, pulls| drain(src.tokenize_with(t, |i: &Item| i.c), pulls, limit), r, input, what, None)
}
type Drained = (Vec<(Tok, usize)>, bool, usize);
fn drain(mut it: impl Iterator<Item = Tok>, pulls: &Cell<usize>, limit: usize) -> Drained {
    let mut out: Vec<(Tok, usize)> = Vec::new();
    let mut ended = false;
    while out.len() < limit {
        match it.next() {
            Some(k) => out.push((k, pulls.get())),
            None => {
                ended = true;
                break;
            }
        }
    }
    (out, ended, pulls.get())
}
fn judge(use_it: impl FnOnce(Source, &Cell<usize>) -> Drained, r: &RefDfa, input: &[char], what: What, endless: Option<char>) -> Result<usize, String> {
    let pulls = Rc::new(Cell::new(0));
    let src = Source { chars: Rc::new(input.to_vec()), pos: 0, pulls: pulls.clone(), endless };
    let res = guard(|| use_it(src, &pulls));
    let (out, ended, total_pulls) = match res {
        Ok(x) => x,
        Err(p) => return Err(format!("tokenizing panicked: {p}")),
    };
    match what {
        What::Tokens => {
            let mut pos = 0;
            for (i, (k, _)) in out.iter().enumerate() {
                let (best, _) = r.longest(&input[pos..]);
                match best {
                    None => return Err(format!("token {i} {k:?} at position {pos} where no pattern matches")),
                    Some((len, p)) => {
                        let exp: String = input[pos..pos + len].iter().collect();
                        if k.pat != p || k.text != exp {
                            return Err(format!("token {i} at position {pos}: got pattern {} text {:?}, longest match with earliest pattern is pattern {p} text {exp:?}", k.pat, k.text));
                        }
                        pos += len;
                    }
                }
            }
            if ended {
                if let (Some((len, p)), _) = r.longest(&input[pos..]) {
                    return Err(format!("tokenizing stopped at position {pos} although pattern {p} matches {len} characters there"));
                }
            }
        }
        What::Conserve => {
            let mut pos = 0;
            for (i, (k, _)) in out.iter().enumerate() {
                let t: String = k.items.iter().map(|x| x.c).collect();
                if t != k.text {
                    return Err(format!("token {i}: text {:?} but items spell {t:?}", k.text));
                }
                for x in &k.items {
                    if x.id != pos || input.get(pos) != Some(&x.c) {
                        return Err(format!("token {i}: item {} ({:?}) delivered where item {pos} is due", x.id, x.c));
                    }
                    pos += 1;
                }
            }
            if ended && pos < input.len() {
                // stopping early is only allowed where nothing matches; see What::Tokens
                if let (Some((len, _)), _) = r.longest(&input[pos..]) {
                    if len > 0 {
                        return Err(format!("items from {pos} on were dropped although a pattern matches there"));
                    }
                }
            }
        }
        What::Lookahead => {
            let mut pos = 0;
            let mut allowed = 0;
            for (i, (k, pulled)) in out.iter().enumerate() {
                let (_, dead) = r.longest(&input[pos..]);
                // with the input exhausted, asking once more per token is unavoidable
                let need = dead.map(|d| pos + d).unwrap_or(usize::MAX);
                allowed = allowed.max(need);
                if *pulled > allowed {
                    return Err(format!("before token {i} ({:?}) {pulled} items were pulled; after {need} no pattern could match any more", k.text));
                }
                pos += k.items.len();
            }
            if ended {
                let (_, dead) = r.longest(&input[pos..]);
                let need = dead.map(|d| pos + d).unwrap_or(usize::MAX);
                if total_pulls > allowed.max(need) {
                    return Err(format!("{total_pulls} items pulled before reporting that nothing matches at {pos}, after {need} nothing could"));
                }
            }
        }
    }
    Ok(out.len())
}

pub fn case(pats: &[String], input: &[char]) -> Value {
    json!({"patterns": pats, "input": input.iter().collect::<String>()})
}
