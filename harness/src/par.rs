//! Checks of the parser crate: C09 - C18, C20, C22.
use crate::fam::*;
use crate::gram::*;
use crate::util::*;
use parser::enum_index_derive::*;
use parser::{enum_index, LR1Parser, Parse, Rule, Symbol, Syntax};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

pub struct Ctx {
    pub g: Grammar,
    pub lr: Lr,
    pub p: Real,
    pub warn: Vec<String>,
}
fn ctx(g: &Grammar, st: &mut Stats) -> Result<Ctx, Violation> {
    let lr = Lr::new(g);
    let (p, warn) = build(g)?;
    st.add("grammars", 1);
    if warn.is_empty() {
        st.add("grammars_without_warnings", 1);
    }
    st.add("states", lr.states() as u64);
    st.add("transitions", lr.transitions);
    st.sample(60_000, "grammars", || json!({"grammar": g.show(), "lr_states": lr.states(), "warnings": warn.len()}));
    Ok(Ctx { g: g.clone(), lr, p, warn })
}
fn cs(g: &Grammar, w: &[usize]) -> Value {
    if w.len() > 200 {
        json!({"grammar": g.json(), "input": &w[..200], "input_length": w.len()})
    } else {
        json!({"grammar": g.json(), "input": w})
    }
}
fn show(o: &Outcome) -> String {
    let s = format!("{:?} after {} tokens read, reducer calls {:?}", o.out, o.pulls, o.calls);
    if s.len() > 1200 {
        let mut k = 1200;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    } else {
        s
    }
}
fn exec(c: &Ctx, w: &[usize], st: &mut Stats) -> Outcome {
    if w.len() < 40 {
        set_input(&format!("{w:?}"));
    } else {
        set_input(&format!("{} tokens", w.len()));
    }
    st.add("traces_validated_against_impl", 1);
    run(&c.p, w, usize::MAX)
}

/// Applies `f` to every grammar of the families with all its inputs.
fn sweep(run: &mut Run, fams: Vec<GFam>, cur: &[bool], f: impl Fn(&Ctx, &[Vec<usize>], &mut Stats) -> R + Sync) {
    let th = run.thorough();
    // curated grammars first: they are cheap and diverse
    for &err in cur {
        for sized in [false, true] {
            let gs = if sized { gsizes(th, err) } else { curated(err) };
            let budget = if th { 6000 } else { 700 };
            let two = if th { 200_000 } else { 12_000 };
            let reps: &[usize] = if th { &[3, 7, 20, 63, 64, 65, 130, 300, 1000] } else { &[3, 9, 40, 130] };
            let name = match (sized, err) {
                (false, false) => "curated grammars",
                (false, true) => "curated grammars with ERROR",
                (true, false) => "grammars of growing size",
                (true, true) => "grammars of growing size with ERROR",
            };
            let lists: std::sync::Mutex<BTreeMap<usize, Vec<Vec<usize>>>> = Default::default();
            run.par("inputs", gs.len(), |i, _| {
                let lr = Lr::new(&gs[i].1);
                let mut v = vec![];
                if lr.conflicts.is_empty() {
                    if !sized {
                        v = edits(&lr, budget, two);
                        v.extend(pumped(&lr, reps));
                        v.extend(wrong_everywhere(&lr, if th { 520 } else { 270 }));
                    }
                    v.extend(state_cover(&lr, if sized { 6 } else { 20 }));
                    if err {
                        v.extend(two_errors(&lr, 20));
                    }
                }
                lists.lock().unwrap().insert(i, v);
                Ok(())
            });
            let lists = lists.into_inner().unwrap();
            let mut items = vec![];
            for (i, v) in &lists {
                for c in 0..v.len().div_ceil(3000).max(1) {
                    items.push((*i, c));
                }
            }
            let names: BTreeSet<&str> = gs.iter().map(|x| x.0).collect();
            let rules = gs.iter().map(|x| x.1.rules.len()).max();
            let n = lists.values().map(|v| v.len()).sum::<usize>();
            if sized {
                run.bound(name, json!({"grammars": gs.len(), "names": names, "inputs": n, "most rules": rules, "inputs are": "every LR(1) state, every token it expects and 6 others, completed and cut; with ERROR: a use of every error rule, in pairs"}));
            } else {
                run.bound(name, json!({"grammars": gs.len(), "names": names, "inputs": n, "viable prefixes per grammar": budget, "edits": "all single, the first double edits", "pumping": reps, "a wrong token": if th { "at each of 520 positions of a long input" } else { "at each of 270 positions of a long input" }, "every LR(1) state": "every token it expects and 20 others, completed and cut"}));
            }
            run.par(name, items.len(), |k, st| {
                let (i, c) = items[k];
                let v = &lists[&i];
                let x = ctx(&gs[i].1, st)?;
                f(&x, &v[c * 3000..v.len().min(c * 3000 + 3000)], st)
            });
        }
    }
    for &err in cur {
        let vl = very_long(th, err);
        run.bound(if err { "very long inputs with ERROR" } else { "very long inputs" }, json!({"grammars": vl.len(), "inputs": vl.iter().map(|x| x.1.len()).sum::<usize>(), "tokens": vl.iter().flat_map(|x| &x.1).map(|w| w.len()).max()}));
        let items: Vec<(usize, usize)> = vl.iter().enumerate().flat_map(|(i, x)| (0..x.1.len()).map(move |k| (i, k))).collect();
        run.par("very long inputs", items.len(), |i, st| {
            let (i, k) = items[i];
            let x = ctx(&vl[i].0, st)?;
            f(&x, &vl[i].1[k..k + 1], st)
        });
    }
    for fam in fams {
        run.bound(fam.name, json!({"grammars": fam.gs.len(), "inputs": fam.words.len()}));
        run.par(fam.name, fam.gs.len(), |i, st| {
            let x = ctx(&fam.gs[i], st)?;
            f(&x, &fam.words, st)
        });
    }
}

/// Words of a set that the grammar derives: membership by fixpoint over the whole word list (the
/// textbook definition of the language), used for families of short words.
struct Lang {
    member: BTreeSet<Vec<usize>>,
}
impl Lang {
    fn new(g: &Grammar, maxlen: usize) -> Lang {
        let nts = g.nts();
        let mut l: BTreeMap<usize, BTreeSet<Vec<usize>>> = nts.iter().map(|n| (*n, BTreeSet::new())).collect();
        loop {
            let mut ch = false;
            for (lhs, rhs) in &g.rules {
                let mut cur: Vec<Vec<usize>> = vec![vec![]];
                for s in rhs {
                    let mut nx = vec![];
                    for c in &cur {
                        match s {
                            Sy::E => {}
                            Sy::T(t) => {
                                if c.len() < maxlen {
                                    let mut x = c.clone();
                                    x.push(*t);
                                    nx.push(x);
                                }
                            }
                            Sy::N(n) => {
                                for y in &l[n] {
                                    if c.len() + y.len() <= maxlen {
                                        let mut x = c.clone();
                                        x.extend(y);
                                        nx.push(x);
                                    }
                                }
                            }
                        }
                    }
                    nx.sort_unstable();
                    nx.dedup();
                    cur = nx;
                    if cur.is_empty() {
                        break;
                    }
                }
                let set = l.get_mut(lhs).unwrap();
                for c in cur {
                    ch |= set.insert(c);
                }
            }
            if !ch {
                return Lang { member: l.remove(&g.start).unwrap() };
            }
        }
    }
}
const EXACT: usize = 12; // derivation oracle up to this length, reference LR beyond
fn member(c: &Ctx, lang: &Option<Lang>, w: &[usize]) -> bool {
    match lang {
        Some(l) => l.member.contains(w),
        None if w.len() <= EXACT => Deriv::new(&c.g, w).count() > 0,
        None => matches!(c.lr.run(w).out, Out::Ok(_)),
    }
}
fn lang_for(c: &Ctx, ws: &[Vec<usize>]) -> Option<Lang> {
    let m = ws.iter().map(|w| w.len()).max().unwrap_or(0);
    if m <= 6 && c.g.rules.len() <= 8 {
        Some(Lang::new(&c.g, m))
    } else {
        None
    }
}

// ------------------------------------------------------------------ C09
pub fn c09(run: &mut Run) {
    let th = run.thorough();
    sweep(run, small_plain(th), &[false], |c, ws, st| {
        if !c.warn.is_empty() || c.g.has_error() {
            return Ok(());
        }
        let lang = lang_for(c, ws);
        for w in ws {
            let m = member(c, &lang, w);
            let o = exec(c, w, st);
            if m {
                st.add("sentences", 1);
            }
            match (&o.out, m) {
                (Out::Ok(_), true) | (Out::NotFound, false) => {}
                _ => return bad(format!("the input is {}derivable but parsing gives {:?}", if m { "" } else { "not " }, o.out), cs(&c.g, w)),
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C10
pub fn c10(run: &mut Run) {
    let th = run.thorough();
    let mut f = small_plain(th);
    f.extend(small_error(false).into_iter().take(1));
    sweep(run, f, &[false, true], |c, ws, st| {
        if !c.warn.is_empty() {
            return Ok(());
        }
        for w in ws {
            let o = exec(c, w, st);
            let Out::Ok(root) = o.out else { continue };
            if o.calls.iter().any(|k| k.args.iter().any(|a| matches!(a, Arg::E(..)))) {
                continue;
            }
            let want = if w.len() <= EXACT {
                let d = Deriv::new(&c.g, w);
                if d.count() == 0 {
                    return bad("parsing succeeds without recovery although the input has no derivation tree", cs(&c.g, w));
                }
                d.calls()
            } else {
                c.lr.run(w).calls
            };
            st.add("derivation_trees_compared", 1);
            if o.calls != want {
                return bad(format!("reducer calls {:?}, the derivation tree prescribes {want:?}", o.calls), cs(&c.g, w));
            }
            if root + 1 != want.len() {
                return bad(format!("the result is the value of reducer call {root}, not of the root (call {})", want.len() - 1), cs(&c.g, w));
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C11
/// Rule numbers a warning blames for a reduction, read leniently from its Debug text.
fn blamed(w: &str) -> Vec<usize> {
    let mut out = vec![];
    let num = |s: &str| s.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().ok();
    if let Some(i) = w.rfind("reduce: ") {
        out.extend(num(&w[i + 8..]));
    }
    if let Some(i) = w.rfind("actions: [") {
        if let Some(j) = w[i..].find(']') {
            out.extend(w[i + 10..i + j].split(',').filter_map(num));
        }
    }
    out
}
pub fn c11(run: &mut Run) {
    let th = run.thorough();
    let mut f = small_plain(th);
    f.extend(small_error(th));
    if !th {
        f.push(small("2 nonterminals, 2 terminals, <=3 rules, RHS <=3 (warnings only)", 2, 2, false, 3, 3, 3, 2));
    }
    let conf: Vec<Grammar> = CONFLICTED.iter().map(|x| curated_src(x.1)).collect();
    let pad = conf.iter().flat_map(|g| [40, 130, 300].into_iter().flat_map(|k| [padded(g, k, false), padded(g, k / 4, true)])).collect();
    f.push(GFam { name: "curated conflicted grammars with an unrelated part", gs: pad, words: words(&[0, 1], 4) });
    f.push(GFam { name: "curated conflicted grammars", gs: conf.iter().cloned().chain(conf.iter().map(sparse)).chain(conf.iter().map(reversed)).collect(), words: words(&[0, 1], 6) });
    f.push(GFam { name: "duplicate rules", gs: duplicates(), words: words(&[0, 1], 3) });
    sweep(run, f, &[false, true], |c, ws, st| {
        st.add("traces_validated_against_impl", 1);
        let case = || json!({"grammar": c.g.json(), "warnings": c.warn.len()});
        if c.lr.conflicts.is_empty() != c.warn.is_empty() {
            return bad(if c.warn.is_empty() { "the grammar has an LR(1) conflict but no warning is given" } else { "a warning is given for a grammar without LR(1) conflict" }, case());
        }
        if !c.warn.is_empty() {
            st.add("conflicted_grammars", 1);
            let parts: BTreeSet<usize> = c.lr.conflicts.iter().flat_map(|x| x.reduces.iter().copied()).collect();
            for w in &c.warn {
                for r in blamed(w) {
                    st.add("blamed_rules_checked", 1);
                    if !parts.contains(&r) {
                        return bad(format!("a warning blames rule {r}, which takes part in no conflict"), case());
                    }
                }
            }
            return Ok(());
        }
        // independent of any LR theory: no warning, no ambiguity
        for w in ws {
            if w.len() <= 6 && w.iter().all(|t| c.lr.tidx.contains_key(t)) {
                st.add("ambiguity_tests", 1);
                if Deriv::new(&c.g, w).count() > 1 {
                    return bad("two derivation trees for one input but no warning", cs(&c.g, w));
                }
            }
        }
        Ok(())
    });
}
/// every grammar of <=2 rules with one of its rules listed twice (at every position)
fn duplicates() -> Vec<Grammar> {
    let mut out = vec![];
    for g in all_grammars(&all_rules(2, 2, false, 2), 2, 1) {
        for i in 0..g.rules.len() {
            for j in 0..=g.rules.len() {
                let mut h = g.clone();
                h.rules.insert(j, g.rules[i].clone());
                out.push(h);
            }
        }
    }
    out
}

// ------------------------------------------------------------------ C12
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
fn reorder(g: &Grammar, p: &[usize]) -> Grammar {
    Grammar { start: g.start, rules: p.iter().map(|&i| g.rules[i].clone()).collect() }
}
pub fn c12(run: &mut Run) {
    let th = run.thorough();
    let mut fams = vec![];
    let k3 = all_grammars(&all_rules(2, 2, false, 2), 3, 1);
    let mut gs = vec![];
    for g in &k3 {
        for p in perms(g.rules.len()) {
            gs.push(reorder(g, &p));
        }
    }
    gs.retain(|g| !Lr::new(g).conflicts.is_empty());
    fams.push(GFam { name: "all rule orders of conflicting grammars, 2 nonterminals, <=3 rules, RHS <=2", gs, words: words(&[0, 1, 7], if th { 6 } else { 5 }) });
    let mut gs = vec![];
    for g in all_grammars(&all_rules(2, 2, false, 2), 4, 4) {
        gs.push(reversed(&g));
        gs.push(g);
    }
    fams.push(GFam { name: "two rule orders of conflicting grammars with 4 rules", gs, words: words(&[0, 1], if th { 6 } else { 4 }) });
    let mut gs = vec![];
    for g in all_grammars(&all_rules(1, 2, false, 3), 3, 2) {
        for p in perms(g.rules.len()) {
            gs.push(reorder(&g, &p));
        }
    }
    fams.push(GFam { name: "all rule orders, 1 nonterminal, <=3 rules, RHS <=3", gs, words: words(&[0, 1], if th { 7 } else { 5 }) });
    fams.push(GFam { name: "duplicate rules", gs: duplicates(), words: words(&[0, 1], 4) });
    let mut gs = vec![];
    for (_, s) in CONFLICTED {
        let g = curated_src(s);
        for p in perms(g.rules.len()) {
            gs.push(reorder(&g, &p));
            gs.push(sparse(&reorder(&g, &p)));
        }
    }
    fams.push(GFam { name: "curated conflicting grammars, all rule orders", gs, words: vec![] });
    // many rules in conflict: rule numbers of one, two and three digits, forwards, backwards, rotated
    let mut gs = vec![];
    for k in sizes(if th { 260 } else { 130 }).into_iter().map(|x| x as usize).filter(|x| *x >= 2) {
        let rr: Vec<(usize, Vec<Sy>)> = (1..=k).flat_map(|i| [(0, vec![Sy::N(i)]), (i, vec![Sy::T(0)])]).collect();
        let rr2: Vec<(usize, Vec<Sy>)> = (1..=k).map(|i| (0, vec![Sy::N(i), Sy::T(1)])).chain((1..=k).map(|i| (i, vec![Sy::T(0)]))).collect();
        let ops: Vec<(usize, Vec<Sy>)> = (1..=k.min(if th { 34 } else { 12 })).map(|i| (0, vec![Sy::N(0), Sy::T(i), Sy::N(0)])).chain([(0, vec![Sy::T(0)])]).collect();
        for r in [rr, rr2, ops] {
            for turn in [0, 1, r.len() / 2] {
                let mut x = r.clone();
                x.rotate_left(turn);
                gs.push(Grammar { start: 0, rules: x.clone() });
                x.reverse();
                gs.push(Grammar { start: 0, rules: x });
            }
        }
    }
    fams.push(GFam { name: "conflicts among many rules", gs, words: words(&[0, 1, 2], 5) });
    sweep(run, fams, &[], |c, ws, st| {
        if c.lr.conflicts.is_empty() {
            return Ok(());
        }
        st.add("conflicted_grammars", 1);
        let own;
        let ws = if ws.is_empty() {
            let a: Vec<usize> = c.g.terms().into_iter().collect();
            own = words(&a, if a.len() > 3 { 5 } else { 6 });
            &own[..]
        } else {
            ws
        };
        for w in ws {
            let e = c.lr.run(w);
            if e.out == Out::Loop {
                st.add("runs_skipped_strategy_does_not_terminate", 1);
                continue;
            }
            let o = exec(c, w, st);
            if o.out != e.out || o.calls != e.calls {
                return bad(format!("got {}; shift before reduce, accept before reduce, first rule first gives {}", show(&o), show(&e)), cs(&c.g, w));
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C13
pub fn c13(run: &mut Run) {
    let th = run.thorough();
    let mut f: Vec<GFam> = if th { small_plain(false) } else { vec![small("2 nonterminals, 2 terminals, <=3 rules, RHS <=2, inputs <=5", 2, 2, false, 2, 3, 1, 5)] };
    f.extend(small_error(false));
    let mut gs = vec![];
    for (_, s) in CONFLICTED {
        gs.push(curated_src(s));
    }
    f.push(GFam { name: "curated conflicting grammars", gs, words: words(&[0, 1, 2], 6) });
    sweep(run, f, &[false, true], |c, ws, st| {
        let cap = 12;
        for w in ws {
            if !c.warn.is_empty() && c.lr.run(w).out == Out::Loop {
                continue;
            }
            let full = exec(c, w, st);
            let at: Vec<usize> = last_call_pulls();
            let n = full.calls.len();
            let long = w.len() > 40;
            let near_power = |k: usize| [k, k + 1, k.wrapping_sub(1)].iter().any(|k| k.is_power_of_two() && (!long || *k >= 16));
            for k in (0..n).filter(|&k| (!long && k < cap) || k + 3 > n || near_power(k) || k == n / 2) {
                st.add("fault_points", 1);
                st.add("traces_validated_against_impl", 1);
                let (o, e) = run_err(&c.p, w, k);
                let case = || json!({"grammar": c.g.json(), "input": w, "failing_call": k});
                if o.out != Out::Fault(k) {
                    return bad(format!("reducer call {k} failed but parsing gave {:?}", o.out), case());
                }
                if o.calls != full.calls[..=k] {
                    return bad(format!("reducer calls after call {k} failed: {:?}", &o.calls[(k + 1).min(o.calls.len())..]), case());
                }
                if o.pulls != at[k] {
                    return bad(format!("{} tokens read although reducer call {k} failed after {}", o.pulls, at[k]), case());
                }
                match e {
                    Some((d, Some(s))) if d == Fault(k).to_string() && s == k => {}
                    e => return bad(format!("display text and source of the returned error are {e:?}, the reducer's error is {:?}", Fault(k).to_string()), case()),
                }
            }
        }
        Ok(())
    });
    dyn_errors(run);
}
/// the default error type, Box<dyn Error + Send + Sync>
fn dyn_errors(run: &mut Run) {
    run.par("boxed errors", 64, |i, st| {
        #[derive(Debug)]
        struct Custom(usize);
        impl std::fmt::Display for Custom {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "custom {} failed", self.0)
            }
        }
        impl std::error::Error for Custom {}
        let fail = i;
        let count = std::rc::Rc::new(std::cell::Cell::new(0usize));
        let mk = |nt: usize| {
            let count = count.clone();
            move |_: &mut [Symbol<&mut Node, &Tok, &[Tok]>]| -> Result<Node, Box<dyn std::error::Error + Send + Sync>> {
                let n = count.get();
                count.set(n + 1);
                if n == fail {
                    Err(Box::new(Custom(n)))
                } else {
                    Ok(Node::nt(nt))
                }
            }
        };
        let p = LR1Parser::<Node, Tok>::from(Syntax::builder().rule(Rule::new_raw(0, &[], mk(0))).rule(Rule::new_raw(0, &[Symbol::NonTerminal(0), Symbol::Terminal(0)], mk(0))).build(Node::nt(0)));
        let r = guard(|| (0..40).map(|id| Tok { kind: 0, id }).parse(&p));
        st.add("traces_validated_against_impl", 1);
        let case = json!({"grammar": "S -> () | S a", "input": "a^40", "failing_call": fail});
        match r {
            Ok(Ok(_)) if fail > 40 => Ok(()),
            Ok(Err(e)) if fail <= 40 => {
                let d = e.to_string();
                let ok = match e {
                    parser::ParseError::ErrorInReducer(b) => b.downcast_ref::<Custom>().is_some_and(|c| c.0 == fail),
                    _ => false,
                };
                if !ok || d != format!("custom {fail} failed") || count.get() != fail + 1 {
                    return bad(format!("boxed error comes back as {d:?}, {} reducers called", count.get()), case);
                }
                Ok(())
            }
            Ok(r) => bad(format!("unexpected result {:?}", r.map(|_| ()).map_err(|e| e.to_string())), case),
            Err(e) => bad(format!("panicked: {e}"), case),
        }
    });
}

// ------------------------------------------------------------------ C14
fn parser_tok(kind: usize, id: usize) -> Tok {
    Tok { kind, id }
}
struct Endless {
    next: Box<dyn Fn(usize) -> Tok>,
    i: usize,
    huge: bool,
}
impl Iterator for Endless {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        self.i += 1;
        Some((self.next)(self.i - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (if self.huge { 1 << 16 } else { 0 }, None)
    }
}
pub fn c14(run: &mut Run) {
    let th = run.thorough();
    sweep(run, small_plain(th), &[false], |c, ws, st| {
        if !c.warn.is_empty() || !c.g.reachable_productive() {
            return Ok(());
        }
        for w in ws {
            // by Earley's algorithm, or by the reference parser for long inputs
            let v = if w.len() <= 40 {
                viable_prefix(&c.g, w)
            } else {
                let r = c.lr.run(w);
                if matches!(r.out, Out::Ok(_)) { w.len() } else { r.pulls - 1 }
            };
            let o = exec(c, w, st);
            let at = last_call_pulls();
            let ok = matches!(o.out, Out::Ok(_));
            if v < w.len() {
                st.add("inputs_with_offending_token", 1);
                if o.pulls > v + 1 {
                    return bad(format!("{} tokens read although token number {v} already makes the input impossible", o.pulls), cs(&c.g, w));
                }
            }
            if !ok && at.iter().any(|&p| p > v) {
                return bad(format!("a reducer was called on account of the offending token {v} ({})", show(&o)), cs(&c.g, w));
            }
            // tokens handed to reducers are the ones read, each once and in order
            let mut last = None;
            for a in o.calls.iter().flat_map(|k| &k.args) {
                match a {
                    Arg::T(k, id) if w.get(*id) == Some(k) => {}
                    Arg::T(..) | Arg::Bad(_) | Arg::E(..) => return bad(format!("reducer argument {a:?} is no token of the input"), cs(&c.g, w)),
                    Arg::N(_) => {}
                }
                if let Arg::T(_, id) = a {
                    last = last.max(Some(*id));
                }
            }
            if ok && !w.is_empty() && last != Some(w.len() - 1) && w.iter().all(|t| c.lr.tidx.contains_key(t)) {
                return bad("parsing succeeded without passing the last token to a reducer", cs(&c.g, w));
            }
            // the same with a source that never ends behind the offending token
            if !ok && v < w.len() && v + 1 == w.len() && w.len() <= 3 {
                st.add("endless_inputs", 1);
                log_begin(cap_for(w.len()), usize::MAX);
                let (w2, tail, n) = (w.clone(), w[v], std::rc::Rc::new(std::cell::Cell::new(0usize)));
                let n2 = n.clone();
                let src = Endless { next: Box::new(move |i| { n2.set(i + 1); if i > 10_000 { panic!("more than 10000 tokens read behind the offending one") } parser_tok(w2.get(i).copied().unwrap_or(tail), i) }), i: 0, huge: w.len() % 2 == 0 };
                let r = guard(|| src.parse(&c.p).map_err(|e| e.to_string()));
                let calls = log_take();
                if !matches!(r, Ok(Err(_))) || calls != o.calls || n.get() > v + 1 {
                    return bad(format!("with endless input behind the offending token: {:?} after {} tokens, reducer calls {:?} instead of {:?}", r.map(|x| x.map(|_| ())), n.get(), calls, o.calls), cs(&c.g, w));
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C15
/// error rules removed, then rules mentioning undefined nonterminals
fn strip(g: &Grammar) -> (Grammar, Vec<usize>) {
    let mut keep: Vec<usize> = (0..g.rules.len()).filter(|&i| !g.rules[i].1.contains(&Sy::E)).collect();
    loop {
        let def: BTreeSet<usize> = keep.iter().map(|&i| g.rules[i].0).collect();
        let n = keep.len();
        keep.retain(|&i| g.rules[i].1.iter().all(|s| if let Sy::N(k) = s { def.contains(k) } else { true }));
        if keep.len() == n {
            return (Grammar { start: g.start, rules: keep.iter().map(|&i| g.rules[i].clone()).collect() }, keep);
        }
    }
}
pub fn c15(run: &mut Run) {
    let th = run.thorough();
    let mut f = small_error(th);
    if !th {
        f.push(small("2 nonterminals, 2 terminals, ERROR, 4 rules, RHS <=2, inputs <=3", 2, 2, true, 2, 4, 4, 3));
        f.last_mut().unwrap().gs.retain(|g| g.has_error());
    }
    sweep(run, f, &[true], |c, ws, st| {
        if !c.warn.is_empty() {
            return Ok(());
        }
        let (s, keep) = strip(&c.g);
        if !s.rules.iter().any(|r| r.0 == s.start) {
            return Ok(());
        }
        let (p, w2) = build(&s)?;
        if !w2.is_empty() {
            return bad("removing the error rules of a warning-free grammar gives warnings", json!({"grammar": c.g.json()}));
        }
        set_group(|| json!({"grammar": c.g.json()}));
        let sl = Lr::new(&s);
        for w in ws {
            if !matches!(sl.run(w).out, Out::Ok(_)) {
                continue;
            }
            st.add("valid_inputs", 1);
            let o = exec(c, w, st);
            let at = last_call_pulls();
            let mut e = crate::gram::run(&p, w, usize::MAX);
            let at_plain = last_call_pulls();
            st.add("traces_validated_against_impl", 1);
            for k in &mut e.calls {
                k.rule = keep[k.rule];
            }
            if o != e {
                return bad(format!("with error rules {}; without {}", show(&o), show(&e)), cs(&c.g, w));
            }
            if let Some(k) = (0..at.len().min(at_plain.len())).find(|&k| at[k] > at_plain[k]) {
                return bad(format!("{} tokens read before reducer call {k}, without error rules {}", at[k], at_plain[k]), cs(&c.g, w));
            }
            if w.len() <= 8 && Deriv::new(&s, w).count() > 0 && !matches!(o.out, Out::Ok(_)) {
                return bad(format!("the input is derivable but parsing gives {:?}", o.out), cs(&c.g, w));
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C16
fn leaves(calls: &[Call], root: usize, out: &mut Vec<Arg>) {
    let mut todo = vec![Arg::N(root)];
    while let Some(a) = todo.pop() {
        match a {
            Arg::N(k) => todo.extend(calls[k].args.iter().rev().cloned()),
            a => out.push(a),
        }
    }
}
/// None: fine; Some(what is wrong)
fn accounted(w: &[usize], ls: &[Arg]) -> Option<String> {
    let mut next = 0; // position right after the preceding token leaf
    let mut i = 0;
    loop {
        let j = (i..ls.len()).find(|&j| !matches!(ls[j], Arg::E(..))).unwrap_or(ls.len());
        let errs = &ls[i..j];
        let (end, tok) = match ls.get(j) {
            None => (w.len(), false),
            Some(Arg::T(k, id)) => {
                if w.get(*id) != Some(k) {
                    return Some(format!("leaf {k} is not token {id} of the input"));
                }
                if *id < next {
                    return Some(format!("token {id} appears twice or out of order"));
                }
                (*id, true)
            }
            Some(a) => return Some(format!("bad leaf {a:?}")),
        };
        let mut covered = vec![false; w.len()];
        for (n, e) in errs.iter().enumerate() {
            let Arg::E(a, b) = e else { unreachable!() };
            if a == b {
                if tok {
                    return Some("an empty ERROR slice in front of a token".into());
                }
                // empty: only at the end of the input, i.e. everything before is accounted for
                if n == 0 && next < w.len() {
                    return Some(format!("an empty ERROR slice although tokens from {next} on are left"));
                }
                continue;
            }
            if *b > w.len() {
                return Some("an ERROR slice beyond the input".into());
            }
            if n == 0 && *a != next {
                return Some(format!("the ERROR slice {a}..{b} does not start right after the preceding leaf (position {next})"));
            }
            if *a < next {
                return Some(format!("the ERROR slice {a}..{b} reaches back before the preceding leaf (position {next})"));
            }
            covered[*a..*b].iter_mut().for_each(|x| *x = true);
        }
        if let Some(x) = (next..end).find(|&x| !covered[x]) {
            return Some(format!("token {x} was skipped but lies in no ERROR slice at that place"));
        }
        if !tok {
            return None;
        }
        next = end + 1;
        i = j + 1;
    }
}
pub fn c16(run: &mut Run) {
    let th = run.thorough();
    let mut f = small_error(th);
    if !th {
        f.push(small("2 nonterminals, 2 terminals, ERROR, 4 rules, RHS <=2, inputs <=3", 2, 2, true, 2, 4, 4, 3));
        f.last_mut().unwrap().gs.retain(|g| g.has_error());
    }
    sweep(run, f, &[true], |c, ws, st| {
        if !c.warn.is_empty() {
            return Ok(());
        }
        for w in ws {
            let o = exec(c, w, st);
            if let Out::Ok(root) = o.out {
                let mut ls = vec![];
                leaves(&o.calls, root, &mut ls);
                if ls.iter().any(|a| matches!(a, Arg::E(..))) {
                    st.add("recovered_parses", 1);
                }
                if let Some(why) = accounted(w, &ls) {
                    return bad(format!("{why}; leaves {:?}", &ls[..ls.len().min(60)]), cs(&c.g, w));
                }
            }
            if let Some(a) = o.calls.iter().flat_map(|k| &k.args).find(|a| matches!(a, Arg::Bad(_))) {
                return bad(format!("reducer argument {a:?}"), cs(&c.g, w));
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C17
pub fn c17(run: &mut Run) {
    let th = run.thorough();
    let mut f = small_error(th);
    f.extend(small_plain(false).into_iter().take(if th { 3 } else { 1 }));
    let any = |k: usize, err: bool| all_grammars_if(&all_rules(2, 1, err, 2), k, 1, |g| g.defined());
    f.push(GFam { name: "any grammar (unreachable and unproductive symbols too), 1 terminal, <=3 rules, ERROR", gs: any(3, true), words: words(&[0, 7], 6) });
    f.push(GFam { name: "duplicate rules", gs: duplicates(), words: words(&[0, 1, 7], 3) });
    let conf: Vec<Grammar> = CONFLICTED.iter().map(|x| curated_src(x.1)).collect();
    f.push(GFam { name: "curated conflicting grammars (building only)", gs: conf, words: vec![] });
    if !th {
        f.push(small("2 nonterminals, 2 terminals, ERROR, 4 rules, RHS <=2, inputs <=3", 2, 2, true, 2, 4, 4, 3));
    }
    sweep(run, f, &[false, true], |c, ws, st| {
        if !c.warn.is_empty() {
            return Ok(());
        }
        for w in ws {
            let o = exec(c, w, st);
            st.max("max_reducer_calls", o.calls.len() as u64);
            st.max("max_input_length", w.len() as u64);
            match o.out {
                Out::Panic(e) => return bad(format!("parsing panicked: {e}"), cs(&c.g, w)),
                Out::Loop => return bad(format!("more than {} reducer calls on {} tokens", cap_for(w.len()), w.len()), cs(&c.g, w)),
                _ => {}
            }
        }
        Ok(())
    });
    // long inputs of errors only, deep nesting
    let gs: Vec<(&'static str, Grammar)> = curated(true).into_iter().chain(curated(false)).collect();
    let ns: Vec<usize> = if th { vec![100, 1000, 5000] } else { vec![100, 1000] };
    run.bound("long monotonous inputs", json!({"grammars": gs.len(), "lengths": ns}));
    run.par("long monotonous inputs", gs.len(), |i, st| {
        let c = ctx(&gs[i].1, st)?;
        if !c.warn.is_empty() {
            return Ok(());
        }
        let ks: Vec<usize> = c.g.terms().into_iter().take(12).collect();
        for &n in &ns {
            for &k in &ks {
                for &l in &ks {
                    if n > 1000 && k != l {
                        continue;
                    }
                    let w: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { k } else { l }).collect();
                    let o = exec(&c, &w, st);
                    if matches!(o.out, Out::Panic(_) | Out::Loop) {
                        return bad(format!("{:?}", o.out), cs(&c.g, &w));
                    }
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C18
/// Grammars that a record of earlier builds could take for one another: the same rules with another start
/// symbol, in another order, repeated, joined or cut differently, renumbered, terminals for nonterminals.
fn related() -> Vec<Grammar> {
    let mut v: Vec<Grammar> = vec![];
    let base = ["S ::= a", "S ::= b", "S ::= ", "S ::= a b", "S ::= a | b", "S ::= b | a", "S ::= a b | ", "S ::= A ; A ::= a", "S ::= A ; A ::= b", "S ::= A b ; A ::= a", "S ::= A A ; A ::= a", "S ::= a A ; A ::= b | ", "S ::= A ; A ::= B ; B ::= a", "S ::= ERROR", "S ::= ERROR a", "S ::= a ERROR", "S ::= a | ERROR a", "S ::= a A ; A ::= ERROR b | b", "S ::= S a | b", "S ::= S a | ", "S ::= a S | b", "S ::= A B ; A ::= a | ; B ::= b | ", "S ::= A S | ; A ::= a b", "S ::= a b a b a b a b a", "S ::= a b a b a b a b b", "S ::= A | B ; A ::= a a ; B ::= a b"];
    for s in base {
        let g = curated_src(s);
        let nts: Vec<usize> = g.nts().into_iter().collect();
        for n in nts {
            let mut h = g.clone();
            h.start = n;
            v.push(h.clone());
            v.push(reversed(&h));
            h.rules.rotate_left(1);
            v.push(h);
        }
        let other = |t: usize| 1 - t.min(1);
        v.push(Grammar { start: g.start, rules: g.rules.iter().map(|(l, r)| (*l, r.iter().map(|s| if let Sy::T(t) = s { Sy::T(other(*t)) } else { *s }).collect())).collect() });
        v.push(Grammar { start: g.start + 3, rules: g.rules.iter().map(|(l, r)| (*l + 3, r.iter().map(|s| if let Sy::N(t) = s { Sy::N(*t + 3) } else { *s }).collect())).collect() });
    }
    let mut seen = BTreeSet::new();
    v.retain(|g| seen.insert(format!("{g:?}")));
    v
}
fn related_words() -> Vec<Vec<usize>> {
    let mut w = words(&[0, 1], 4);
    w.push(vec![0, 1, 0, 1, 0, 1, 0, 1, 0]);
    w.push(vec![0, 1, 0, 1, 0, 1, 0, 1, 1]);
    w
}
fn related_behaviour(g: &Grammar) -> String {
    match build(g) {
        Ok((p, w)) => format!("{} {:?}", w.is_empty(), related_words().iter().map(|w| crate::gram::run(&p, w, usize::MAX)).collect::<Vec<_>>()),
        Err(e) => e.why,
    }
}
pub fn fresh(i: usize) -> String {
    related_behaviour(&related()[i])
}
pub fn c18(run: &mut Run) {
    let th = run.thorough();
    let seeds: u64 = if th { 200 } else { 32 };
    let mut gs: Vec<(Grammar, Vec<Vec<usize>>)> = vec![];
    for err in [false, true] {
        for (_, g) in curated(err) {
            if g.rules.len() < 30 {
                let lr = Lr::new(&g);
                let ws = if lr.conflicts.is_empty() { edits(&lr, 40, 0) } else { words(&g.terms().into_iter().collect::<Vec<_>>(), 3) };
                gs.push((g, ws.into_iter().take(400).collect()));
            }
        }
    }
    for (_, s) in CONFLICTED {
        let g = curated_src(s);
        let ws = words(&g.terms().into_iter().collect::<Vec<_>>(), 4);
        gs.push((g, ws));
    }
    for err in [false, true] {
        for (_, g) in gsizes(false, err) {
            if g.rules.len() < 80 {
                let ws = state_cover(&Lr::new(&g), 3);
                gs.push((g, ws.into_iter().take(60).collect()));
            }
        }
    }
    let w5 = words(&[0, 1, 7], 4);
    for f in small_error(false).into_iter().take(1) {
        gs.extend(f.gs.into_iter().step_by(if th { 4 } else { 41 }).map(|g| (g, w5.clone())));
    }
    for g in all_grammars(&all_rules(2, 2, false, 2), 4, 1).into_iter().step_by(if th { 11 } else { 97 }) {
        gs.push((g, w5.clone()));
    }
    run.bound("hash seeds", json!({"grammars": gs.len(), "seeds": seeds, "seeds for more than 60 states": seeds.min(48)}));
    run.par("hash seeds", gs.len(), |i, st| {
        let (g, ws) = &gs[i];
        let lr = Lr::new(g);
        st.add("states", lr.states() as u64);
        st.add("transitions", lr.transitions);
        let ws: Vec<&Vec<usize>> = ws.iter().filter(|w| lr.conflicts.is_empty() || lr.run(w).out != Out::Loop).collect();
        set_group(|| json!({"grammar": g.json()}));
        let mut first: Option<(bool, Vec<Outcome>)> = None;
        for s in 0..if lr.states() > 60 { seeds.min(48) } else { seeds } {
            let seed = env_seed().wrapping_mul(0x2_0000) + s;
            let b = with_hash_seed(seed, || -> Result<(bool, Vec<Outcome>), Violation> {
                let (p, w) = build(g)?;
                Ok((w.is_empty(), ws.iter().map(|x| crate::gram::run(&p, x, usize::MAX)).collect()))
            })?;
            st.add("traces_validated_against_impl", ws.len() as u64);
            match &first {
                None => first = Some(b),
                Some(f) if *f == b => {}
                Some(f) => {
                    let why = match ws.iter().zip(f.1.iter().zip(&b.1)).find(|(_, (a, b))| a != b) {
                        Some((w, (a, b))) => format!("input {w:?}: {} vs {}", show(a), show(b)),
                        None => "presence of warnings".into(),
                    };
                    return bad(format!("two builds under different hash seeds differ: {why}"), json!({"grammar": g.json(), "hash_seeds": [env_seed().wrapping_mul(0x2_0000), seed]}));
                }
            }
        }
        Ok(())
    });
    // histories of parses on one parser: Ok, syntax error, recovery, abort at the k-th reducer
    let hg: Vec<Grammar> = ["pinned", "err_stmts", "expr", "err_list", "err_two", "null_chain"].iter().map(|n| curated_src(CURATED.iter().find(|c| c.0 == *n).unwrap().1)).collect();
    let hist = words(&(0..10).collect::<Vec<_>>(), 3);
    run.bound("histories of parses", json!({"grammars": hg.len(), "histories": hist.len(), "operations": "complete, failing, recovering and aborted parses"}));
    run.par("histories", hg.len() * hist.len(), |i, st| {
        let g = &hg[i % hg.len()];
        let h = &hist[i / hg.len()];
        let c = ctx(g, st)?;
        let (fresh, _) = build(g)?;
        let pre = edits(&c.lr, 24, 0);
        let probe: Vec<&Vec<usize>> = pre.iter().step_by((pre.len() / 40).max(1)).collect();
        for &op in h {
            let w = &pre[(op * 37 + 11) % pre.len()];
            let f = if op % 3 == 2 { op / 3 } else { usize::MAX };
            let _ = crate::gram::run(&c.p, w, f);
        }
        for w in probe {
            let o = exec(&c, w, st);
            let e = crate::gram::run(&fresh, w, usize::MAX);
            if o != e {
                return bad(format!("after {} earlier parses: {}; a fresh parser gives {}", h.len(), show(&o), show(&e)), json!({"grammar": g.json(), "history": h, "input": w}));
            }
        }
        Ok(())
    });
    // a parse inside another one: started by the source or by a reducer, at every point, with the same parser
    // or with another one
    run.bound("nested parses", json!({"pairs of grammars": hg.len() * hg.len(), "start": "every token asked for and every reducer call of the outer parse"}));
    run.par("nested parses", hg.len() * hg.len(), |i, st| {
        let (a, b) = (&hg[i % hg.len()], &hg[i / hg.len()]);
        let (p, _) = build(a)?;
        let (q, _) = build(b)?;
        let q = if i % hg.len() == i / hg.len() { &p } else { &q };
        let pick = |g: &Grammar, n: usize| {
            let e = edits(&Lr::new(g), 24, 0);
            let step = (e.len() / n).max(1);
            e.into_iter().step_by(step).collect::<Vec<_>>()
        };
        let outer: Vec<(Vec<usize>, Outcome)> = pick(a, if th { 60 } else { 20 }).into_iter().map(|w| { let o = crate::gram::run(&p, &w, usize::MAX); (w, o) }).collect();
        let inner: Vec<(Vec<usize>, Outcome)> = pick(b, if th { 40 } else { 12 }).into_iter().map(|w| { let o = crate::gram::run(q, &w, usize::MAX); (w, o) }).collect();
        for (w, e) in &outer {
            for (x, f) in &inner {
                for k in 0..w.len() + 1 + e.calls.len() {
                    let (src, at) = if k <= w.len() { (true, k) } else { (false, k - w.len() - 1) };
                    let (o, n) = crate::gram::run_nested(&p, w, q, x, src, at);
                    st.add("traces_validated_against_impl", 2);
                    st.add("transitions", 1);
                    if o != *e || !(n.is_none() || n.as_ref() == Some(f)) {
                        return bad(format!("a parse of {x:?} inside a parse of {w:?} ({} {at}) changes the result: {} and {:?}; alone they give {} and {}", if src { "asked for token" } else { "in reducer call" }, show(&o), n.as_ref().map(show), show(e), show(f)), json!({"grammar": a.json(), "input": w, "inner_grammar": b.json(), "inner_input": x}));
                    }
                }
            }
        }
        st.add("states", 1);
        Ok(())
    });
    // every history of building, using and dropping parsers in one thread
    let el: Vec<Grammar> = ["S ::= a", "S ::= b", "S ::= a S | b", "S ::= a B ; B ::= b | ", "S ::= ERROR a | b"].iter().map(|s| curated_src(s)).collect();
    let ew: Vec<Vec<usize>> = words(&[0, 1], 2).into_iter().filter(|w| !w.is_empty()).collect();
    let want: Vec<Vec<Outcome>> = el.iter().map(|g| build(g).map(|(p, _)| ew.iter().map(|w| crate::gram::run(&p, w, usize::MAX)).collect()).unwrap_or_default()).collect();
    let (nl, nw) = (el.len(), ew.len());
    let alpha = 2 * nl + nw;
    let eseeds = if th { 12u64 } else { 3 };
    let depth = if th { 6 } else { 5 };
    run.bound("histories of building, using and dropping", json!({"operations": alpha, "depth": depth, "hash seeds": eseeds}));
    run.par("build, use and drop", nl * alpha * eseeds as usize, |i, st| {
        let (head, seed) = (i % (nl * alpha), (i / (nl * alpha)) as u64);
        let (first, second) = (head / alpha, head % alpha);
        let tails = words(&(0..alpha).collect::<Vec<_>>(), depth - 3);
        let (el, ew, want, tails) = (&el, &ew, &want, &tails);
        let (n, wrong) = with_hash_seed(env_seed().wrapping_mul(0x2_0000) + seed, move || {
            let mut n = (0u64, 0u64);
            for tail in tails {
                for last in 0..nw {
                    let mut ops = vec![first, second];
                    ops.extend(tail.iter().copied());
                    ops.push(2 * nl + last);
                    let mut cur: Option<(usize, crate::gram::Real)> = None;
                    for op in &ops {
                        n.0 += 1;
                        if *op < 2 * nl {
                            if *op < nl {
                                cur = None;
                            }
                            match build(&el[op % nl]) {
                                Ok((p, _)) => cur = Some((op % nl, p)),
                                Err(e) => return (n, Some(e)),
                            }
                        } else if let Some((k, p)) = &cur {
                            let w = op - 2 * nl;
                            let o = crate::gram::run(p, &ew[w], usize::MAX);
                            if want[*k].get(w) != Some(&o) {
                                return (n, bad::<()>(format!("in a history of building, using and dropping parsers: {}", show(&o)), json!({"grammar": el[*k].json(), "input": ew[w], "history": ops, "hash_seed": seed})).err());
                            }
                        }
                    }
                    n.1 += 1;
                }
            }
            (n, None)
        });
        st.add("transitions", n.0);
        st.add("traces_validated_against_impl", n.1);
        match wrong {
            Some(e) => Err(e),
            None => Ok(()),
        }
    });
    // every small grammar, used twice in both orders on every pair of inputs
    let small_g: Vec<Grammar> = small_error(false).remove(0).gs.into_iter().step_by(if th { 3 } else { 23 }).collect();
    let w3 = words(&[0, 1], 3);
    run.bound("pairs of parses", json!({"grammars": small_g.len(), "pairs": w3.len() * w3.len()}));
    run.par("pairs of parses", small_g.len(), |i, st| {
        let c = ctx(&small_g[i], st)?;
        if !c.warn.is_empty() {
            return Ok(());
        }
        let fresh: Vec<Outcome> = w3.iter().map(|w| crate::gram::run(&build(&c.g).unwrap().0, w, usize::MAX)).collect();
        for a in &w3 {
            for (b, e) in w3.iter().zip(&fresh) {
                crate::gram::run(&c.p, a, usize::MAX);
                let o = exec(&c, b, st);
                if o != *e {
                    return bad(format!("after parsing {a:?}: {}; a fresh parser gives {}", show(&o), show(e)), cs(&c.g, b));
                }
            }
        }
        Ok(())
    });
    // every ordered pair of related grammars, built one after the other, against what a process gives that
    // built only the second
    let rl = related();
    let alone: Vec<std::sync::Mutex<String>> = rl.iter().map(|_| Default::default()).collect();
    run.bound("related builds", json!({"grammars": rl.len(), "histories": "every ordered pair", "compared with": "a process that builds nothing else"}));
    run.par("fresh processes", rl.len(), |i, st| {
        st.add("processes", 1);
        match fresh_process("C18", i) {
            Ok(s) => {
                *alone[i].lock().unwrap() = s;
                Ok(())
            }
            Err(e) => bad(format!("a process that builds only this parser fails: {e}"), json!({"grammar": rl[i].json()})),
        }
    });
    let alone: Vec<String> = alone.into_iter().map(|m| m.into_inner().unwrap()).collect();
    run.par("related builds", rl.len() * rl.len(), |i, st| {
        let (a, b) = (i / rl.len(), i % rl.len());
        let got = with_hash_seed(env_seed().wrapping_mul(0x2_0000) + i as u64 % 5, || {
            let first = build(&rl[a]);
            let r = related_behaviour(&rl[b]);
            drop(first);
            r
        });
        st.add("traces_validated_against_impl", 31);
        st.add("transitions", 2);
        if got != alone[b] {
            let cut = |s: &str| s.chars().take(300).collect::<String>();
            return bad(format!("built after another parser it behaves differently than in a process of its own: {} instead of {}", cut(&got), cut(&alone[b])), json!({"grammar": rl[b].json(), "built before": rl[a].json()}));
        }
        Ok(())
    });
    run.stats.add("seed_source_calls", seed_calls());
}

// ------------------------------------------------------------------ C20
#[derive(Debug, EnumIndex, Clone, PartialEq)]
enum EN {
    A(Vec<usize>),
    B { x: String, y: i32 },
    C,
}
#[derive(Debug, EnumIndex, Clone, PartialEq)]
enum ET {
    T0(usize),
    T1 { id: usize, s: &'static str },
    T2,
}
fn en(k: usize, salt: usize) -> EN {
    match k {
        0 => EN::A(vec![salt; salt % 3]),
        1 => EN::B { x: format!("p{salt}"), y: -(salt as i32) },
        _ => EN::C,
    }
}
fn et(k: usize, salt: usize) -> ET {
    match k {
        0 => ET::T0(salt),
        1 => ET::T1 { id: salt, s: if salt % 2 == 0 { "x" } else { "" } },
        _ => ET::T2,
    }
}
type EE = String;
type ERule = Rule<EN, ET, EE>;
thread_local! { static ELOG: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) }; }
fn ered(rule: usize, nt: usize) -> impl Fn(&mut [Symbol<&mut EN, &ET, &[ET]>]) -> Result<EN, EE> + 'static {
    move |l| {
        ELOG.with(|e| {
            let n = e.borrow().len();
            e.borrow_mut().push(format!("{rule}:{l:?}"));
            if n > 3000 {
                return Err("loop".into());
            }
            Ok(match nt {
                0 => EN::A(vec![n]),
                1 => EN::B { x: format!("{n}"), y: 0 },
                _ => EN::C,
            })
        })
    }
}
/// style 0: Rule::new with example payloads from `salt`; 1: new_raw; 2: builder; 3: a mixture
fn erules(g: &Grammar, style: usize, salt: usize) -> Vec<ERule> {
    g.rules
        .iter()
        .enumerate()
        .map(|(i, (l, r))| match if style == 3 { i % 3 } else { style } {
            0 => {
                let s: Vec<Symbol<EN, ET, ()>> = r.iter().enumerate().map(|(j, s)| match s { Sy::N(k) => Symbol::NonTerminal(en(*k, salt + j)), Sy::T(k) => Symbol::Terminal(et(*k, salt + j)), Sy::E => Symbol::Error(()) }).collect();
                Rule::new(en(*l, salt), &s, ered(i, *l))
            }
            1 => Rule::new_raw(*l, &raw_rhs(r), ered(i, *l)),
            _ => {
                let mut b = Rule::<EN, ET, EE>::builder(en(*l, salt + 1));
                for (j, s) in r.iter().enumerate() {
                    b = match s {
                        Sy::N(k) => b.non_terminal(en(*k, salt + j)),
                        Sy::T(k) => b.terminal(et(*k, salt + j)),
                        Sy::E => b.error(),
                    };
                }
                b.build(ered(i, *l))
            }
        })
        .collect()
}
fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn eparse(p: &LR1Parser<EN, ET, EE>, w: &[usize]) -> Result<(String, Vec<String>), String> {
    ELOG.with(|e| e.borrow_mut().clear());
    let r = guard(|| w.iter().enumerate().map(|(i, k)| et(*k, 1000 + i)).parse(p).map_err(|e| e.to_string()))?;
    Ok((format!("{r:?}"), ELOG.with(|e| std::mem::take(&mut *e.borrow_mut()))))
}
#[cfg(feature = "tables")]
fn erules_of(p: &LR1Parser<EN, ET, EE>) -> Vec<String> {
    p.rules.iter().map(|r| format!("{r:?}")).collect()
}
pub fn c20(run: &mut Run) {
    let th = run.thorough();
    let mut gs = all_grammars(&all_rules(2, 2, true, 2), 3, 1);
    gs.extend(all_grammars(&all_rules(2, 2, false, 2), if th { 4 } else { 3 }, 3));
    for (_, s) in CURATED.iter().chain(CONFLICTED.iter()) {
        let g = curated_src(s);
        if g.nts().len() <= 3 && g.terms().len() <= 3 {
            gs.push(g);
        }
    }
    gs.extend(duplicates());
    // one rule with every right-hand side
    let long = all_rules(2, 2, true, if th { 6 } else { 5 });
    gs.extend(long.iter().filter(|(l, r)| *l == 0 && r.len() > 2).map(|r| Grammar { start: 0, rules: vec![r.clone(), (1, vec![Sy::T(0)])] }));
    for n in [5usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] {
        let sy = [Sy::N(1), Sy::T(0), Sy::E, Sy::T(1), Sy::E, Sy::E, Sy::N(1), Sy::N(1)];
        gs.push(Grammar { start: 0, rules: vec![(0, (0..n).map(|i| sy[i % 8].clone()).collect()), (1, vec![Sy::T(0)])] });
        gs.push(Grammar { start: 0, rules: vec![(0, (0..n).map(|i| Sy::T(i % 2)).collect())] });
    }
    // starts other than the first nonterminal
    let more: Vec<Grammar> = gs.iter().filter(|g| g.nts().len() == 2).step_by(3).map(|g| Grammar { start: 1, rules: g.rules.clone() }).collect();
    gs.extend(more);
    let ws = words(&[0, 1, 2], if th { 4 } else { 3 });
    run.bound("grammars x construction styles", json!({"grammars": gs.len(), "styles": ["Rule::new", "Rule::new_raw", "Rule::builder", "mixture"], "start": ["build", "build_raw"], "constructor": ["new", "from"], "example payloads": [0, 1, 7], "inputs": ws.len()}));
    run.par("construction styles", gs.len(), |i, st| {
        let g = &gs[i];
        let lr = Lr::new(g);
        st.add("grammars", 1);
        st.add("states", lr.states() as u64);
        st.add("transitions", lr.transitions);
        set_group(|| json!({"grammar": g.json()}));
        let ws: Vec<&Vec<usize>> = ws.iter().filter(|w| lr.conflicts.is_empty() || lr.run(w).out != Out::Loop).collect();
        let combos: Vec<(usize, usize, bool, bool)> = (0..4).flat_map(|s| [(s, 0, false, false), (s, 1, true, false), (s, 7, false, true)]).collect();
        let base_rules = erules(g, 1, 0);
        #[cfg(feature = "tables")]
        let mut rules0: Option<Vec<String>> = None;
        let mut base: Option<(Vec<Result<(String, Vec<String>), String>>, Option<bool>)> = None;
        for (style, salt, raw, from) in combos {
            let what = json!({"style": (["new", "new_raw", "builder", "mixture"])[style], "payload": salt, "build_raw": raw, "from": from});
            let case = || json!({"grammar": g.json(), "construction": what});
            let rs = match guard(|| erules(g, style, salt)) {
                Ok(r) => r,
                Err(e) => return bad(format!("making the rules panicked: {e}"), case()),
            };
            for (a, b) in rs.iter().zip(&base_rules) {
                if a != b || hash_of(a) != hash_of(b) || a.cmp(b) != std::cmp::Ordering::Equal {
                    return bad(format!("rules written in different ways differ: {a:?} and {b:?}"), case());
                }
            }
            // a syntax gives its rules back as they are
            let back = guard(|| {
                let b = erules(g, style, salt + 2).into_iter().fold(Syntax::<EN, ET, EE>::builder(), |b, r| b.rule(r));
                if raw { b.build_raw(g.start) } else { b.build(en(g.start, salt)) }.into_rules()
            });
            if !back.as_ref().is_ok_and(|b| *b == base_rules) {
                return bad(format!("into_rules gives {back:?} instead of {base_rules:?}"), case());
            }
            let built = guard(|| {
                let mut b = Syntax::<EN, ET, EE>::builder();
                for r in rs {
                    b = b.rule(r);
                }
                let s = if raw { b.build_raw(g.start) } else { b.build(en(g.start, salt)) };
                if from {
                    (LR1Parser::from(s), None)
                } else {
                    let (p, w) = LR1Parser::new(s);
                    (p, Some(w.is_empty()))
                }
            });
            let (p, w) = match built {
                Ok(x) => x,
                Err(e) => return bad(format!("building panicked: {e}"), case()),
            };
            #[cfg(feature = "tables")]
            match &rules0 {
                None => rules0 = Some(erules_of(&p)),
                Some(r) if *r == erules_of(&p) => {}
                Some(r) => return bad(format!("the parser has the rules {:?}, with Rule::new and build {r:?}", erules_of(&p)), case()),
            }
            let res: Vec<_> = ws.iter().map(|x| eparse(&p, x)).collect();
            st.add("traces_validated_against_impl", ws.len() as u64);
            match &base {
                None => base = Some((res, w)),
                Some((r0, w0)) => {
                    if let Some(k) = (0..ws.len()).find(|&k| r0[k] != res[k]) {
                        return bad(format!("input {:?}: {:?}, but with Rule::new and build {:?}", ws[k], res[k], r0[k]), case());
                    }
                    if w.is_some() && *w0 != w {
                        return bad("presence of warnings depends on the way the grammar is written", case());
                    }
                }
            }
        }
        // and the whole agrees with the reference, so that "the same" is not "equally wrong"
        for (k, x) in ws.iter().enumerate() {
            let e = lr.run(x);
            let ok = base.as_ref().unwrap().0[k].as_ref().is_ok_and(|r| r.0.starts_with("Ok("));
            if ok != matches!(e.out, Out::Ok(_)) {
                return bad(format!("input {x:?}: accepted is {ok}, the grammar says otherwise"), cs(g, x));
            }
        }
        Ok(())
    });
    // every pair of rules: equal exactly when nonterminal and symbols are equal, in every style
    let us = all_rules(3, 3, true, 2);
    run.bound("pairs of rules", json!({"rules": us.len()}));
    let g = Grammar { start: 0, rules: us.clone() };
    run.par("pairs of rules", us.len(), |i, st| {
        for (sa, sb) in [(0, 1), (1, 2), (0, 2), (2, 2), (0, 0)] {
            let a = &erules(&Grammar { start: 0, rules: vec![us[i].clone()] }, sa, 3)[0];
            let bs = erules(&g, sb, 5);
            for (j, b) in bs.iter().enumerate() {
                st.add("rule_pairs", 1);
                if (a == b) != (us[i] == us[j]) {
                    return bad(format!("rules {a:?} and {b:?} compare as equal={}", a == b), json!({"rules": [g.json()["rules"][i], g.json()["rules"][j]]}));
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C22
pub fn c22(run: &mut Run) {
    let th = run.thorough();
    let mut f = small_error(th);
    if !th {
        f.push(small("2 nonterminals, 2 terminals, ERROR, 4 rules, RHS <=2, inputs <=3", 2, 2, true, 2, 4, 4, 3));
        f.last_mut().unwrap().gs.retain(|g| g.has_error());
    }
    sweep(run, f, &[true, false], |c, ws, st| {
        for w in ws {
            let mut visited = 0u64;
            let e = c.lr.run_traced(w, &mut |_, _| visited += 1);
            st.add("reference_steps", visited);
            if e.out == Out::Loop {
                st.add("runs_skipped_strategy_does_not_terminate", 1);
                continue;
            }
            let o = exec(c, w, st);
            if e.calls.iter().any(|k| k.args.iter().any(|a| matches!(a, Arg::E(..)))) {
                st.add("recoveries", 1);
            }
            if o != e {
                return bad(format!("got {}; the policy gives {}", show(&o), show(&e)), cs(&c.g, w));
            }
        }
        Ok(())
    });
}

pub fn replay(c: &Value) {
    let g = Grammar::from_json(&c["grammar"]);
    let w: Vec<usize> = c["input"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default();
    println!("{}\ninput {w:?}", g.show());
    let lr = Lr::new(&g);
    println!("LR(1) conflicts: {}", lr.conflicts.len());
    match build(&g) {
        Err(v) => println!("{}", v.why),
        Ok((p, ws)) => {
            println!("warnings: {}", ws.len());
            let f = c["failing_call"].as_u64().map(|x| x as usize).unwrap_or(usize::MAX);
            println!("real:      {}", show(&run(&p, &w, f)));
            println!("reference: {}", show(&lr.run(&w)));
        }
    }
}
