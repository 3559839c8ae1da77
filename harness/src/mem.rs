//! C25: only live memory is touched, all of it is given back, everything is dropped exactly once.
//! The same cases run twice: plainly (allocation and drop accounting) and under the address sanitizer.
use crate::fam::*;
use crate::gram::{all_grammars, all_rules, raw_rhs, words, Grammar, Lr};
use crate::rx::*;
use crate::tok::case;
use crate::util::*;
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, Rule, Symbol, Syntax};
use serde_json::json;
use std::cell::Cell;
use tokenizer::{DFATokenizer, Tokenize};

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static LOWEST: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static FAULT: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// A value that owns memory and is counted.
struct Counted<T> {
    v: Box<T>,
}
impl<T> Counted<T> {
    fn new(v: T) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Counted { v: Box::new(v) }
    }
}
impl<T> Drop for Counted<T> {
    fn drop(&mut self) {
        LIVE.with(|l| {
            l.set(l.get() - 1);
            LOWEST.with(|w| w.set(w.get().min(l.get())));
        });
    }
}
impl EnumIndex for Counted<usize> {
    fn enum_index(&self) -> usize {
        *self.v
    }
}
fn live() -> isize {
    LIVE.with(|l| l.get())
}
type Ch = Counted<char>;
type Out = (Counted<usize>, String, Vec<Ch>);

/// Builds, uses and drops; Err(what is still alive)
fn tokenizer_life(pats: &[String], inputs: &[Vec<char>]) -> Result<u64, String> {
    let mk = |n: usize| {
        let mut b = DFATokenizer::<Out, Ch>::builder();
        for (i, p) in pats.iter().enumerate().take(n) {
            let own = Counted::new(i);
            b = b.pattern(p, move |s, items| (Counted::new(*own.v), s.to_string(), items));
        }
        b
    };
    let mut uses = 0;
    // abandoned before it is built
    drop(mk(pats.len()));
    if live() != 0 {
        return Err(format!("{} values are alive after a builder was dropped", live()));
    }
    if let Ok((t, w)) = mk(pats.len()).build() {
        let own = live();
        for i in inputs {
            // everything; abandoned after one and two tokens; never started
            for lim in [i.len() + 2, 2, 1, 0] {
                uses += 1;
                // from a source that knows its length and from one that does not
                let got: Vec<Out> = if uses % 2 == 0 { i.iter().map(|c| Counted::new(*c)).tokenize_with(&t, |c: &Ch| *c.v).take(lim).collect() } else { i.iter().map(|c| Counted::new(*c)).filter(|_| true).tokenize_with(&t, |c: &Ch| *c.v).take(lim).collect() };
                if live() != own + got.iter().map(|g| 1 + g.2.len() as isize).sum::<isize>() {
                    return Err(format!("{:?}, {lim} tokens: items that belong to no token are still alive", i));
                }
                drop(got);
                if live() != own {
                    return Err(format!("{:?}, {lim} tokens: {} values alive instead of {own}", i, live()));
                }
            }
        }
        drop(w);
        let last: Vec<char> = inputs.last().cloned().unwrap_or_default();
        // by value: the tokenizer dies with the iterator
        let n = last.len() + 2;
        let toks: Vec<Out> = last.into_iter().map(Counted::new).tokenize_with(t, |c: &Ch| *c.v).take(n).collect();
        // the tokens are still whole
        for (k, s, items) in &toks {
            if *k.v >= pats.len() || s.chars().ne(items.iter().map(|c| *c.v)) {
                return Err("a token is damaged".into());
            }
        }
    }
    if live() != 0 {
        return Err(format!("{} values are alive after the tokenizer and its tokens were dropped", live()));
    }
    Ok(uses)
}
fn parser_life(g: &Grammar, ws: &[Vec<usize>]) -> Result<u64, String> {
    type V = Counted<usize>;
    let mut b = Syntax::<V, V, Counted<u8>>::builder();
    for (l, r) in &g.rules {
        let own = Counted::new(*l);
        b = b.rule(Rule::new_raw(*l, &raw_rhs(r), move |list: &mut [Symbol<&mut V, &V, &[V]>]| {
            let n = CALLS.with(|c| {
                c.set(c.get() + 1);
                c.get() - 1
            });
            // reducers may take their children out, and look at all tokens
            let mut seen = 0;
            for s in list.iter_mut() {
                match s {
                    Symbol::NonTerminal(x) => drop(std::mem::replace(*x, Counted::new(*x.v))),
                    Symbol::Terminal(t) => seen += *t.v,
                    Symbol::Error(ts) => seen += ts.iter().map(|t| *t.v).sum::<usize>(),
                }
            }
            std::hint::black_box(seen);
            if n >= FAULT.with(|f| f.get()).min(5000) {
                Err(Counted::new(1))
            } else {
                Ok(Counted::new(*own.v))
            }
        }));
    }
    let (p, w) = LR1Parser::new(b.build_raw(g.start));
    let own = live();
    let mut uses = 0;
    for i in ws {
        for (k, fault) in [usize::MAX, 0, 1, 3, usize::MAX, i.len() / 2, i.len()].into_iter().enumerate() {
            uses += 1;
            CALLS.with(|c| c.set(0));
            FAULT.with(|f| f.set(fault));
            // from a source that knows its length and from one that does not
            let r = if k < 4 { i.iter().map(|k| Counted::new(*k)).parse(&p) } else { i.iter().map(|k| Counted::new(*k)).filter(|_| true).parse(&p) };
            if live() != own + 1 - matches!(r, Err(parser::ParseError::RecoveryRuleNotFound)) as isize {
                return Err(format!("{i:?}: {} values alive after parsing instead of the result alone", live() - own));
            }
            drop(r);
        }
    }
    drop((p, w));
    if live() != 0 {
        return Err(format!("{} values are alive after the parser was dropped", live()));
    }
    Ok(uses)
}
/// Three times the same life; what the second and the third both leave behind is leaked.
fn lives(f: impl Fn() -> Result<u64, String>, st: &mut Stats) -> Result<(), String> {
    let mut at = vec![];
    for round in 0..3 {
        LIVE.with(|l| l.set(0));
        LOWEST.with(|l| l.set(0));
        let r = guard(&f);
        match r {
            // panics are judged elsewhere (C06, C17)
            Err(_) => {
                st.add("cases_that_panicked", 1);
                return Ok(());
            }
            Ok(Err(e)) => return Err(e),
            Ok(Ok(n)) => {
                st.add("traces_validated_against_impl", n);
                st.add("transitions", n);
            }
        }
        if LOWEST.with(|l| l.get()) < 0 {
            return Err("a value was dropped twice".into());
        }
        at.push(net_bytes());
        // enough for a quick look
        if round == 1 && at[1] == at[0] {
            return Ok(());
        }
    }
    if at[1] > at[0] && at[2] > at[1] {
        return Err(format!("{} bytes are never given back each time this is built, used and dropped", at[2] - at[1]));
    }
    Ok(())
}
pub fn c25(run: &mut Run, sanitized: bool) {
    let th = run.thorough();
    let thin = |v: Vec<Pats>, k: usize| -> Vec<Pats> { if sanitized && !th { v.into_iter().step_by(k).collect() } else { v } };
    let odd: Vec<Pats> = ["^a", "a$", "\\b", "(?i)aB", "a**", "(", "[", "\\p{L}+", "(?:)", "a|", "()", "(|b)c", "[^\\x00-\\x{10ffff}]", "x{3,2}", "x{200}", "(?u:é)", "(?x) a # b"].iter().map(|s| Pats { strs: vec![s.to_string()], re: vec![] }).collect();
    let fams: Vec<(&'static str, Vec<Pats>, bool)> = vec![
        ("patterns with loops, <=4 nodes", singles(if th { &UNARY18 } else { &UNARY8 }, 4), true),
        ("ordered pairs of patterns of <=3 nodes", if th { pairs(&UNARY8, 3) } else { pairs(&UNARY8, 3).into_iter().step_by(5).collect() }, true),
        ("ordered triples of patterns of <=2 nodes", thin(triples(&UNARY8, 2), 3), true),
        ("counted repetitions", counted_family(6), false),
        ("class shorthands", thin(shorthands(false), 3), false),
        ("critical code points", thin(points().into_iter().step_by(if th { 1 } else { 7 }).collect(), 3), false),
        ("range classes over six letters", thin(ranges(false).into_iter().step_by(if th { 1 } else { 7 }).collect(), 3), false),
        ("realistic lists", realistic(), false),
        ("sizes around powers of two and above", big(false).into_iter().step_by(if th { 3 } else if sanitized { 41 } else { 13 }).collect(), false),
        ("unsupported, invalid and empty patterns", odd, true),
    ];
    let abx = all_strings(&['a', 'b', 'x'], 3);
    for (name, lists, short) in fams {
        run.bound(name, json!({"lists": lists.len(), "inputs": if short { "all strings of length <=3 over abx" } else { "coverage inputs" }, "uses": ["complete", "abandoned after 1 and 2 tokens", "not started", "by value"]}));
        run.par(name, lists.len(), |i, st| {
            let p = &lists[i];
            set_group(|| json!({"patterns": p.strs}));
            st.add("pattern_lists", 1);
            st.add("states", 1);
            let ws = if short { abx.clone() } else { cover(&RefDfa::new(&p.re), 40) };
            lives(|| tokenizer_life(&p.strs, &ws), st).or_else(|e| bad(e, case(&p.strs, &[])))
        });
    }
    let mut gs: Vec<(&'static str, Vec<Grammar>)> = vec![
        ("grammars of <=3 rules", all_grammars(&all_rules(2, 2, false, 2), 3, 1).into_iter().step_by(if th { 1 } else if sanitized { 23 } else { 7 }).collect()),
        ("grammars of <=3 rules with ERROR", all_grammars(&all_rules(2, 2, true, 2), 3, 1).into_iter().filter(|g| g.has_error()).step_by(if th { 1 } else if sanitized { 23 } else { 7 }).collect()),
        ("grammars of 2 rules with ERROR", all_grammars(&all_rules(2, 2, true, 2), 2, 1)),
    ];
    gs.push(("curated grammars", CURATED.iter().chain(CONFLICTED.iter()).map(|(_, s)| curated_src(s)).collect()));
    gs.push(("grammars of growing size", [false, true].iter().flat_map(|e| gsizes(false, *e)).map(|x| x.1).step_by(if sanitized { 9 } else { 3 }).collect()));
    for (name, gs) in gs {
        run.bound(name, json!({"grammars": gs.len(), "uses": ["complete", "reducer call 0, 1, 3, n/2, n fails"], "sources": ["length known", "length unknown"], "long": "covering inputs pumped to 20..100 tokens, with and without a foreign token"}));
        run.par(name, gs.len(), |i, st| {
            let g = &gs[i];
            set_group(|| json!({"grammar": g.json()}));
            let lr = Lr::new(g);
            st.add("grammars", 1);
            st.add("states", 1);
            let mut al: Vec<usize> = g.terms().into_iter().take(3).collect();
            al.push(7);
            let mut ws = words(&al, if al.len() > 3 { 2 } else { 3 });
            if lr.conflicts.is_empty() {
                ws.extend(state_cover(&lr, 2).into_iter().take(60));
            }
            if name.starts_with("curated") || name.starts_with("grammars of 2") {
                for n in [20, 40, 100] {
                    for w in words(&al, 2).into_iter().filter(|w| !w.is_empty()) {
                        let long: Vec<usize> = w.iter().cycle().copied().take(n).collect();
                        for tail in [vec![], vec![7], vec![7, al[0]], vec![al[0], al[0], w[0]]] {
                            ws.push(long.iter().chain(&tail).copied().collect());
                        }
                    }
                }
            }
            // without an end (C17 judges only warning-free grammars)
            ws.retain(|w| lr.conflicts.is_empty() || lr.run(w).out != crate::gram::Out::Loop);
            lives(|| parser_life(g, &ws), st).or_else(|e| bad(e, json!({"grammar": g.json()})))
        });
    }
    if !sanitized {
        let f = format!("{}/target/asan.json", verif_dir());
        if let Some(v) = std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()) {
            run.bound("the same under the address sanitizer", v);
        }
    }
}

// ---- C26: the caller's code panics at every point at which it is called ----
const SITES: [&str; 5] = ["the source", "the mapping function", "a constructor", "a reducer", "enum_index"];
thread_local! {
    static PLAN: Cell<(usize, usize)> = const { Cell::new((9, 0)) };
    static TICKS: Cell<[usize; 5]> = const { Cell::new([0; 5]) };
    static DOWN: Cell<bool> = const { Cell::new(false) };
    static LATE: Cell<bool> = const { Cell::new(false) };
}
#[derive(PartialEq, Debug)]
struct Mine(usize, usize);
/// The caller's code is entered.
fn tick(site: usize) {
    let n = TICKS.with(|t| {
        let mut a = t.get();
        a[site] += 1;
        t.set(a);
        a[site] - 1
    });
    if DOWN.with(|d| d.get()) {
        LATE.with(|l| l.set(true));
        return;
    }
    if PLAN.with(|p| p.get()) == (site, n) {
        DOWN.with(|d| d.set(true));
        std::panic::resume_unwind(Box::new(Mine(site, n)));
    }
}
fn arm(plan: (usize, usize)) {
    PLAN.with(|p| p.set(plan));
    TICKS.with(|t| t.set([0; 5]));
    DOWN.with(|d| d.set(false));
    LATE.with(|l| l.set(false));
}
impl EnumIndex for Counted<(usize, String)> {
    fn enum_index(&self) -> usize {
        tick(4);
        self.v.0
    }
}
/// `f` without a panic, then with one at every point, each followed by `f` without one again.
fn crash_points<R: PartialEq + std::fmt::Debug>(own: isize, st: &mut Stats, f: impl Fn() -> R) -> Result<(), String> {
    let plain = |st: &mut Stats| {
        arm((9, 0));
        st.add("traces_validated_against_impl", 1);
        guard(&f).map(|r| (r, TICKS.with(|t| t.get())))
    };
    // panics of the code under test itself are judged elsewhere (C06, C17)
    let Ok((want, calls)) = plain(st) else { return Ok(()) };
    for site in 0..5 {
        // all points of short runs, the first, the last and some in between of long ones
        let n = calls[site];
        for k in (0..n).filter(|k| n <= 24 || *k < 10 || *k + 4 >= n || k % (n / 8) == 0) {
            st.add("fault_points", 1);
            st.add("transitions", 1);
            arm((site, k));
            LOWEST.with(|l| l.set(0));
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&f));
            let at = format!("{} panics at its call {}", SITES[site], k + 1);
            let late = LATE.with(|l| l.get());
            match got {
                Ok(_) => return Err(format!("{at}: the panic is swallowed")),
                Err(e) if e.downcast_ref::<Mine>() != Some(&Mine(site, k)) => return Err(format!("{at}: another panic arrives")),
                Err(e) => drop(e),
            }
            if late {
                return Err(format!("{at}: the caller's code is called again afterwards"));
            }
            if live() != own || LOWEST.with(|l| l.get()) < 0 {
                return Err(format!("{at}: {} values alive instead of {own}", live()));
            }
            match plain(st) {
                Ok((r, _)) if r == want => {}
                Ok((r, _)) => return Err(format!("{at}: afterwards the result is {r:?} instead of {want:?}")),
                Err(e) => return Err(format!("{at}: afterwards it panics: {e}")),
            }
        }
    }
    Ok(())
}
fn tokenizer_crashes(pats: &[String], inputs: &[Vec<char>], st: &mut Stats) -> Result<(), String> {
    let mut b = DFATokenizer::<(usize, String, Vec<Ch>), Ch>::builder();
    for (i, p) in pats.iter().enumerate() {
        b = b.pattern(p, move |s, items| {
            tick(2);
            (i, s.to_string(), items)
        });
    }
    let Ok((t, _)) = b.build() else { return Ok(()) };
    for i in inputs {
        crash_points(0, st, || -> Vec<(usize, String)> {
            let mut at = 0;
            let src = std::iter::from_fn(|| {
                tick(0);
                at += 1;
                i.get(at - 1).map(|c| Counted::new(*c))
            });
            let got: Vec<_> = src
                .tokenize_with(&t, |c: &Ch| {
                    tick(1);
                    *c.v
                })
                .take(i.len() + 2)
                .collect();
            got.into_iter().map(|(k, s, _)| (k, s)).collect()
        })
        .map_err(|e| format!("{i:?}: {e}"))?;
    }
    Ok(())
}
fn parser_crashes(g: &Grammar, ws: &[Vec<usize>], st: &mut Stats) -> Result<(), String> {
    type V = Counted<(usize, String)>;
    let mut b = Syntax::<V, V, String>::builder();
    for (k, (l, r)) in g.rules.iter().enumerate() {
        let l = *l;
        b = b.rule(Rule::new_raw(l, &raw_rhs(r), move |list: &mut [Symbol<&mut V, &V, &[V]>]| {
            let mut s = format!("({k}");
            for x in list.iter_mut() {
                match x {
                    Symbol::NonTerminal(x) => s += &std::mem::take(&mut x.v.1),
                    Symbol::Terminal(t) => s += &t.v.1,
                    Symbol::Error(ts) => s += &format!("{:?}", ts.iter().map(|t| &t.v.1).collect::<Vec<_>>()),
                }
            }
            // after some of the children were taken out
            tick(3);
            if s.len() > 2000 {
                return Err("too long".into());
            }
            Ok(Counted::new((l, s + ")")))
        }));
    }
    let (p, _) = LR1Parser::new(b.build_raw(g.start));
    for i in ws {
        crash_points(0, st, || -> Result<String, String> {
            let mut at = 0;
            let src = std::iter::from_fn(|| {
                tick(0);
                at += 1;
                i.get(at - 1).map(|k| Counted::new((*k, format!(" {at}"))))
            });
            match src.parse(&p) {
                Ok(v) => Ok(v.v.1.clone()),
                Err(e) => Err(e.to_string()),
            }
        })
        .map_err(|e| format!("{i:?}: {e}"))?;
    }
    Ok(())
}
pub fn c26(run: &mut Run) {
    let th = run.thorough();
    let fams: Vec<(&'static str, Vec<Pats>, bool)> = vec![
        ("patterns with loops, <=4 nodes", singles(if th { &UNARY18 } else { &UNARY8 }, 4), true),
        ("ordered pairs of patterns of <=3 nodes", pairs(&UNARY8, 3).into_iter().step_by(if th { 1 } else { 7 }).collect(), true),
        ("ordered triples of patterns of <=2 nodes", triples(&UNARY8, 2).into_iter().step_by(if th { 1 } else { 3 }).collect(), true),
        ("realistic lists", realistic().into_iter().collect(), false),
        ("range classes over six letters", ranges(false).into_iter().step_by(if th { 1 } else { 13 }).collect(), false),
    ];
    let abx = all_strings(&['a', 'b', 'x'], 4);
    for (name, lists, short) in fams {
        run.bound(name, json!({"lists": lists.len(), "inputs": if short { "all strings of length <=4 over abx" } else { "coverage inputs" }, "fault_points": "every call of the source, the mapping function and a constructor"}));
        run.par(name, lists.len(), |i, st| {
            let p = &lists[i];
            set_group(|| json!({"patterns": p.strs}));
            st.add("pattern_lists", 1);
            st.add("states", 1);
            let ws = if short { abx.clone() } else { cover(&RefDfa::new(&p.re), 25) };
            LIVE.with(|l| l.set(0));
            tokenizer_crashes(&p.strs, &ws, st).or_else(|e| bad(e, case(&p.strs, &[])))
        });
    }
    let gs: Vec<(&'static str, Vec<Grammar>)> = vec![
        ("grammars of <=3 rules", all_grammars(&all_rules(2, 2, false, 2), 3, 1)),
        ("grammars of <=3 rules with ERROR", all_grammars(&all_rules(2, 2, true, 2), 3, 1).into_iter().filter(|g| g.has_error()).step_by(if th { 1 } else { 3 }).collect()),
        ("grammars of 2 rules with ERROR", all_grammars(&all_rules(2, 2, true, 2), 2, 1)),
        ("curated grammars", CURATED.iter().chain(CONFLICTED.iter()).map(|(_, s)| curated_src(s)).collect()),
        ("grammars of growing size", [false, true].iter().flat_map(|e| gsizes(false, *e)).map(|x| x.1).step_by(if th { 1 } else { 3 }).collect()),
    ];
    for (name, gs) in gs {
        run.bound(name, json!({"grammars": gs.len(), "fault_points": "every call of the source, a reducer and enum_index"}));
        run.par(name, gs.len(), |i, st| {
            let g = &gs[i];
            set_group(|| json!({"grammar": g.json()}));
            let lr = Lr::new(g);
            st.add("grammars", 1);
            st.add("states", 1);
            let mut al: Vec<usize> = g.terms().into_iter().take(3).collect();
            al.push(7);
            let mut ws = words(&al, if al.len() > 3 { 2 } else { 4 });
            if lr.conflicts.is_empty() {
                ws.extend(state_cover(&lr, 2).into_iter().take(40));
            }
            ws.retain(|w| lr.conflicts.is_empty() || lr.run(w).out != crate::gram::Out::Loop);
            LIVE.with(|l| l.set(0));
            parser_crashes(g, &ws, st).or_else(|e| bad(e, json!({"grammar": g.json()})))
        });
    }
}
