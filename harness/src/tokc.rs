//! Checks of the tokenizer crate: C01 - C07.
use crate::fam::*;
use crate::rx::*;
use crate::tok::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use tokenizer::{DFATokenizer, Tokenize};

fn self_test(run: &mut Run) {
    match self_test_rx() {
        Ok(n) => run.stats.add("reference_self_test_strings", n),
        Err(e) => {
            eprintln!("reference self-test failed: {e}");
            std::process::exit(3);
        }
    }
}
fn self_test_rx() -> Result<u64, String> {
    crate::rx::self_test()
}
fn inputs_for<'a>(f: &'a Family, shared: &'a [Vec<char>], r: &RefDfa) -> std::borrow::Cow<'a, [Vec<char>]> {
    if f.alpha.is_empty() {
        std::borrow::Cow::Owned(cover(r, f.cap))
    } else {
        std::borrow::Cow::Borrowed(shared)
    }
}
fn count_ref(st: &mut Stats, r: &RefDfa) {
    st.add("states", r.next.len() as u64);
    st.add("transitions", (r.next.len() * (r.cuts.len() - 1)) as u64);
    st.max("max_reference_states", r.next.len() as u64);
}

/// C01 / C03 / C04: real iterator against the reference on every list and input of the families.
pub fn streams(run: &mut Run, what: What) {
    self_test(run);
    let th = run.thorough();
    for f in stream_families(th) {
        let shared = if f.alpha.is_empty() { vec![] } else { all_strings(&f.alpha, f.len) };
        run.bound(f.name, json!({"lists": f.lists.len(), "inputs": if f.alpha.is_empty() { json!("coverage inputs access(s).c.d and access(s).c.access(t)") } else { json!(format!("all {} strings of length <= {} over {:?}", shared.len(), f.len, f.alpha)) }}));
        run.par(f.name, f.lists.len(), |i, st| {
            let p = &f.lists[i];
            let r = RefDfa::new(&p.re);
            let (t, _) = build_ok(&p.strs)?;
            st.add("pattern_lists", 1);
            count_ref(st, &r);
            // and one long text with the tokenizer passed by value
            let mut long: Vec<char> = vec![];
            let mut last = 0;
            for w in inputs_for(&f, &shared, &r).iter() {
                one(&t, &r, p, w, what, st)?;
                if long.len() < 1000 {
                    let (n, l) = (long.len(), last);
                    long.extend(w);
                    // only what can be tokenized to its end
                    loop {
                        match r.longest(&long[last..]).0 {
                            Some((k, _)) if k > 0 && last + k < long.len() => last += k,
                            Some((k, _)) if k > 0 => break,
                            _ => {
                                long.truncate(n);
                                last = l;
                                break;
                            }
                        }
                    }
                }
            }
            set_input("one long text, the tokenizer by value");
            match stream_by_value(t, &r, &long, long.len() + 3, what) {
                Ok(n) => {
                    st.add("tokens_checked_by_value", n as u64);
                    st.add("traces_validated_against_impl", 1);
                }
                Err(e) => return bad(format!("with the tokenizer passed by value: {e}"), case(&p.strs, &long)),
            }
            st.sample(20_000, "pattern_lists", || json!({"patterns": p.strs, "states": r.next.len()}));
            Ok(())
        });
    }
    // long failed lookahead
    let lens = pump_lengths(th);
    run.bound("pumped inputs", json!({"lists": PUMPS.len(), "lengths": lens.len(), "longest": lens.last()}));
    run.par("pumped inputs", PUMPS.len() * lens.len(), |i, st| {
        let (l, pre, pump, suf) = PUMPS[i % PUMPS.len()];
        let n = lens[i / PUMPS.len()];
        pump_case(l, pre, pump, suf, n, what, st)
    });
    let big: Vec<usize> = if th { vec![4096, 8192, 10000, 65535, 65536, 65537, 200_000] } else { vec![4096, 10000, 65537] };
    run.bound("very long inputs", json!(big));
    run.par("very long inputs", LINEAR.len() * big.len(), |i, st| {
        let (l, pre, pump, suf) = LINEAR[i % LINEAR.len()];
        pump_case(l, pre, pump, suf, big[i / LINEAR.len()], what, st)
    });
    match what {
        What::Conserve => char_sources(run),
        What::Lookahead => endless(run),
        What::Tokens => {}
    }
}
fn pump_case(l: &[&str], pre: &str, pump: &str, suf: &str, n: usize, what: What, st: &mut Stats) -> R {
    let p = Pats::syn(l);
    let r = RefDfa::new(&p.re);
    let (t, _) = build_ok(&p.strs)?;
    let w: Vec<char> = pre.chars().chain(pump.chars().cycle().take(pump.chars().count() * n)).chain(suf.chars()).collect();
    st.add("pattern_lists", 1);
    count_ref(st, &r);
    st.max("max_input_length", w.len() as u64);
    set_input(&format!("{pre} ({pump})^{n} {suf}"));
    match stream(&t, &r, &w, w.len() + 3, what) {
        Ok(n) => {
            st.add("tokens_checked", n as u64);
            st.add("traces_validated_against_impl", 1);
            Ok(())
        }
        Err(e) => bad(clip(&e), json!({"patterns": l, "input": if w.len() < 300 { w.iter().collect::<String>() } else { format!("{pre}({pump})^{n}{suf}") }})),
    }
}
fn clip(s: &str) -> String {
    if s.chars().count() > 1500 {
        s.chars().take(1500).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}
fn one(t: &Real, r: &RefDfa, p: &Pats, w: &[char], what: What, st: &mut Stats) -> R {
    match stream(t, r, w, w.len() + 3, what) {
        Ok(n) => {
            st.add("tokens_checked", n as u64);
            st.add("traces_validated_against_impl", 1);
            Ok(())
        }
        Err(e) => bad(e, case(&p.strs, w)),
    }
}

/// C03: plain `tokenize` on chars, tokenizer by reference (twice) and by value.
fn char_sources(run: &mut Run) {
    let mut lists = realistic();
    lists.extend(triples(&UNARY8, 2));
    let shared = all_strings(&['a', 'b', 'x'], 4);
    let n_real = lists.len() - triples(&UNARY8, 2).len();
    run.bound("char sources", json!({"lists": lists.len(), "uses": ["tokenize(&t)", "tokenize(&t) again", "tokenize_with(&t, map)", "tokenize(t)"]}));
    run.par("char sources, by reference and by value", lists.len(), |i, st| {
        let p = &lists[i];
        let r = RefDfa::new(&p.re);
        set_group(|| json!({"patterns": p.strs}));
        type CT = (usize, String, Vec<char>);
        let mk = || {
            guard(|| {
                let mut b = DFATokenizer::<CT, char>::builder();
                for (i, s) in p.strs.iter().enumerate() {
                    b = b.pattern(s, move |s, v: Vec<char>| (i, s.to_string(), v));
                }
                b.build().map(|x| x.0).map_err(|e| format!("{e:?}"))
            })
        };
        let t = match mk() {
            Ok(Ok(t)) => t,
            e => return bad(format!("building a char tokenizer failed: {:?}", e.map(|x| x.map(|_| ()))), json!({"patterns": p.strs})),
        };
        let ws = if i < n_real { cover(&r, 300) } else { shared.clone() };
        let mut joined: Vec<char> = vec![];
        let check = |w: &[char], how: &str, got: Result<Vec<CT>, String>| -> R {
            let got = match got {
                Ok(g) => g,
                Err(e) => return bad(format!("{how}: panicked: {e}"), case(&p.strs, w)),
            };
            let mut pos = 0;
            for (k, s, v) in &got {
                let txt: String = v.iter().collect();
                if txt != *s || w.get(pos..pos + v.len()) != Some(&v[..]) {
                    return bad(format!("{how}: pattern {k} got text {s:?} and items {v:?} at position {pos}"), case(&p.strs, w));
                }
                pos += v.len();
            }
            if got.len() <= w.len() + 2 {
                if let (Some((l, _)), _) = r.longest(&w[pos..]) {
                    if l > 0 {
                        return bad(format!("{how}: input from position {pos} on was dropped although a pattern matches there"), case(&p.strs, w));
                    }
                }
            }
            Ok(())
        };
        for w in &ws {
            let lim = w.len() + 3;
            set_input(&w.iter().collect::<String>());
            check(w, "tokenize(&t)", guard(|| w.iter().copied().tokenize(&t).take(lim).collect()))?;
            check(w, "second tokenize(&t)", guard(|| w.iter().copied().tokenize(&t).take(lim).collect()))?;
            check(w, "tokenize_with(&t)", guard(|| w.iter().copied().tokenize_with(&t, |c| *c).take(lim).collect()))?;
            st.add("traces_validated_against_impl", 3);
            if joined.len() < 400 {
                joined.extend(w);
            }
        }
        let lim = joined.len() + 3;
        check(&joined, "tokenize(t)", guard(|| joined.iter().copied().tokenize(t).take(lim).collect()))?;
        st.add("traces_validated_against_impl", 1);
        Ok(())
    });
}

/// C04: a source that never ends; tokens must come as soon as they are decided.
fn endless(run: &mut Run) {
    let mut lists = pairs(&UNARY5, 3);
    let np = lists.len();
    lists.extend(realistic());
    let shared = all_strings(&['a', 'b'], 4);
    run.bound("endless sources", json!({"lists": lists.len(), "tail": "a character outside every pattern, repeated for ever"}));
    run.par("endless sources", lists.len(), |i, st| {
        let p = &lists[i];
        let r = RefDfa::new(&p.re);
        // a character after which nothing is alive, from every state
        let Some(dead) = ['\u{1}', '#', '\u{2603}', '~', 'X'].into_iter().find(|c| r.next.iter().all(|row| !r.live[row[r.interval(*c as u32)]])) else {
            st.add("lists_without_dead_character", 1);
            return Ok(());
        };
        let (t, _) = build_ok(&p.strs)?;
        count_ref(st, &r);
        let ws = if i < np { shared.clone() } else { cover(&r, 300) };
        for w in &ws {
            if w.contains(&dead) {
                continue;
            }
            // the reference sees enough of the tail to know where matching becomes impossible
            let mut v = w.clone();
            v.extend([dead; 3]);
            set_input(&v.iter().collect::<String>());
            let nullable = !r.acc[START].is_empty();
            let lim = if nullable { w.len() } else { w.len() + 2 };
            match stream_from(&t, &r, &v, lim, What::Lookahead, Some(dead)) {
                Ok(_) => st.add("traces_validated_against_impl", 1),
                Err(e) => return bad(format!("endless source: {e}"), case(&p.strs, &v)),
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C02
pub fn c02(run: &mut Run) {
    self_test(run);
    let th = run.thorough();
    let fams: Vec<(&'static str, Vec<Pats>)> = vec![
        ("single patterns, <=5 nodes", if th { singles(&UNARY18, 5) } else { singles(&UNARY18, 4).into_iter().chain(singles(&UNARY8, 5)).collect() }),
        ("single patterns, 6 nodes", if th { singles(&UNARY5, 6) } else { vec![] }),
        ("ordered pairs of patterns of <=3 nodes", pairs(if th { &UNARY18 } else { &UNARY8 }, 3)),
        ("ordered triples of patterns of <=2 nodes", triples(&UNARY18, 2)),
        ("three-letter patterns, <=5 nodes", enumerate(&[ch('a'), ch('b'), ch('c')], &UNARY5, if th { 5 } else { 4 }).into_iter().flatten().map(|r| Pats::of(vec![r])).collect()),
        ("overlapping classes as letters, <=4 nodes", enumerate(&[rng('a', 'c'), rng('b', 'd'), ch('b')], &UNARY8, 4).into_iter().flatten().map(|r| Pats::of(vec![r])).collect()),
        ("range classes over six letters", ranges(th)),
        ("critical code points", points()),
        ("class shorthands", shorthands(true)),
        ("counted repetitions", counted_family(12)),
        ("realistic lists", realistic()),
        ("sizes around powers of two and above", big(th)),
        ("large automata", large(th)),
    ];
    for (name, lists) in fams {
        run.bound(name, json!({"lists": lists.len()}));
        run.par(name, lists.len(), |i, st| {
            let p = &lists[i];
            st.sample(50_000, "pattern_lists", || json!({"patterns": p.strs}));
            check_language(p, &p.re, st)
        });
    }
    // Known finding: an empty sub-expression accepts every string.
    let eps: Vec<Pats> = enumerate(&[ch('a'), ch('b'), Re::Eps], &UNARY5, 3).into_iter().flatten().filter(|r| r.has_eps()).map(|r| Pats::of(vec![r])).filter(|p| regex_syntax::Parser::new().parse(&p.strs[0]).is_ok()).collect();
    run.bound("patterns with empty sub-expressions", json!({"lists": eps.len(), "treatment": "must agree with regular-expression semantics, or deviate exactly as the known finding describes"}));
    run.par("patterns with empty sub-expressions", eps.len(), |i, st| {
        let p = &eps[i];
        // what regex-syntax makes of it (it may simplify the empty part away)
        let plain = check_language(p, &p.re, st);
        if plain.is_ok() {
            return Ok(());
        }
        let quirk: Vec<Re> = vec![from_syntax(&p.strs[0]).eps_as_anything()];
        match check_language(p, &quirk, st) {
            Ok(()) => {
                *st.known.entry("empty-subexpression-accepts-everything".into()).or_insert(0) += 1;
                Ok(())
            }
            Err(_) => plain,
        }
    });
}
fn large(th: bool) -> Vec<Pats> {
    let mut v = vec![];
    for n in if th { vec![200u32, 255, 256, 257, 300, 400] } else { vec![200, 257, 300] } {
        v.push(Pats::of(vec![counted(ch('a'), n, None)]));
        v.push(Pats::of(vec![cat(ch('x'), counted(ch('a'), 0, Some(Some(n)))), ch('a')]));
    }
    // (a|b)*a(a|b)^k needs 2^(k+1) states
    for k in 1..=if th { 8 } else { 6 } {
        let x = alt(ch('a'), ch('b'));
        v.push(Pats::of(vec![cat(star(x.clone()), cat(ch('a'), counted(x, k, None)))]));
    }
    v
}
#[cfg(feature = "tables")]
fn check_language(p: &Pats, re: &[Re], st: &mut Stats) -> R {
    let r = RefDfa::new(re);
    let (t, _) = build_ok(&p.strs)?;
    st.add("pattern_lists", 1);
    let pr = match product(&t, &r) {
        Ok(x) => x,
        Err((w, e)) => return bad(e, json!({"patterns": p.strs, "input": w})),
    };
    st.add("states", pr.states);
    st.add("transitions", pr.transitions);
    st.max("max_product_states", pr.states);
    // Replay: every product state, every character class (both ends), on the real iterator.
    let reps = if r.cuts.len() > 60 { r.reps(false).into_iter().step_by(r.cuts.len() / 30).collect() } else { r.reps(true) };
    for a in &pr.access {
        replay_first(&t, &r, p, a, st)?;
        for &c in &reps {
            let mut w = a.clone();
            w.push(c);
            replay_first(&t, &r, p, &w, st)?;
        }
    }
    Ok(())
}
#[cfg(not(feature = "tables"))]
fn check_language(p: &Pats, re: &[Re], st: &mut Stats) -> R {
    // black box: conformance test suite access(s).c.d.e over the reference automaton
    let r = RefDfa::new(re);
    let (t, _) = build_ok(&p.strs)?;
    st.add("pattern_lists", 1);
    count_ref(st, &r);
    for w in cover(&r, 3000) {
        replay_first(&t, &r, p, &w, st)?;
    }
    if r.cuts.len() <= 6 {
        for w in all_strings(&r.reps(false), 6) {
            replay_first(&t, &r, p, &w, st)?;
        }
    }
    Ok(())
}
fn replay_first(t: &Real, r: &RefDfa, p: &Pats, w: &[char], st: &mut Stats) -> R {
    match stream(t, r, w, w.len() + 2, What::Tokens) {
        Ok(_) => {
            st.add("traces_validated_against_impl", 1);
            Ok(())
        }
        Err(e) => bad(e, case(&p.strs, w)),
    }
}

// ------------------------------------------------------------------ C05
/// the two pattern numbers a warning names, if its Debug text has exactly two numbers
fn named(w: &str) -> Option<(usize, usize)> {
    let n: Vec<usize> = w.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect();
    match n[..] {
        [a, b] => Some((a, b)),
        _ => None,
    }
}
pub fn c05(run: &mut Run) {
    self_test(run);
    let th = run.thorough();
    let mut fams = stream_families(th);
    fams.push(Family { name: "triples of patterns of <=2 nodes, 18 operators", lists: triples(&UNARY18, 2), alpha: vec![], len: 0, cap: 1500 });
    fams.push(Family { name: "pairs of patterns of <=3 nodes, 18 operators", lists: pairs(&UNARY18, 3), alpha: vec![], len: 0, cap: 1500 });
    fams.push(Family { name: "quadruples", lists: quads(), alpha: vec![], len: 0, cap: 1500 });
    for f in fams {
        run.bound(f.name, json!({"lists": f.lists.len()}));
        run.par(f.name, f.lists.len(), |i, st| {
            let p = &f.lists[i];
            let r = RefDfa::new(&p.re);
            count_ref(st, &r);
            let (_, ws) = build_ok(&p.strs)?;
            st.add("traces_validated_against_impl", 1);
            check_warnings(&r, &ws, &p.strs, st)
        });
    }
}
fn quads() -> Vec<Pats> {
    let l = [ch('a'), ch('b'), plus(ch('a')), word("ab"), opt(ch('b')), rng('a', 'b')];
    let mut v = vec![];
    for i in 0..l.len().pow(4) {
        let d: Vec<Re> = (0..4).map(|k| l[i / l.len().pow(k) % l.len()].clone()).collect();
        v.push(Pats::of(d));
    }
    v
}
fn check_warnings(r: &RefDfa, ws: &[String], strs: &[String], st: &mut Stats) -> R {
    let over = r.overlapping();
    let c = || json!({"patterns": strs, "warnings": ws, "overlapping": over.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()});
    if !over.is_empty() {
        st.add("lists_with_overlap", 1);
        st.sample(3000, "lists_with_overlap", c);
    }
    if over.is_empty() && !ws.is_empty() {
        return bad("a conflict is reported although no two patterns share a string", c());
    }
    if !over.is_empty() && ws.is_empty() {
        return bad("patterns share a string but no warning is given", c());
    }
    let pairs: Option<Vec<(usize, usize)>> = ws.iter().map(|w| named(w)).collect();
    if let Some(pairs) = pairs {
        for (a, b) in &pairs {
            if a == b || !over.contains(&(*a.min(b), *a.max(b))) {
                return bad(format!("a warning names patterns {a} and {b}, which share no string"), c());
            }
        }
        for (a, b) in &over {
            for x in [a, b] {
                if !pairs.iter().any(|(p, q)| p == x || q == x) {
                    return bad(format!("pattern {x} shares a string with another one but is named in no warning"), c());
                }
            }
        }
        st.add("warnings_checked", pairs.len() as u64);
    }
    Ok(())
}

// ------------------------------------------------------------------ C06
/// Ok(true) supported, Ok(false) valid but uses an unsupported feature, Err invalid
pub(crate) fn expect(p: &str) -> Result<bool, ()> {
    use regex_syntax::hir::{Class, Hir, HirKind, Literal};
    fn ok(h: &Hir) -> bool {
        match h.kind() {
            HirKind::Empty | HirKind::Literal(Literal::Unicode(_)) | HirKind::Class(Class::Unicode(_)) => true,
            HirKind::Literal(_) | HirKind::Class(_) | HirKind::Anchor(_) | HirKind::WordBoundary(_) => false,
            HirKind::Group(g) => ok(&g.hir),
            HirKind::Repetition(r) => ok(&r.hir),
            HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().all(ok),
        }
    }
    regex_syntax::Parser::new().parse(p).map(|h| ok(&h)).map_err(|_| ())
}
fn cheap(p: &str) -> bool {
    // huge counted repetitions are legal but only slow: {12}{12}... stay below 200 copies
    !p.contains("{9") || p.len() < 4
}
pub fn c06(run: &mut Run) {
    let th = run.thorough();
    let meta: Vec<char> = "ab\\.+*?()|[]{}^$-,20".chars().collect();
    let n = if th { 5 } else { 4 };
    let strs = all_strings(&meta, n);
    run.bound("all pattern strings over regex meta characters", json!({"alphabet": meta.iter().collect::<String>(), "length": n, "patterns": strs.len()}));
    let texts: Vec<Vec<char>> = all_strings(&['a', 'b', '('], 3);
    run.par("pattern strings", strs.len().div_ceil(64), |b, st| {
        for s in &strs[b * 64..strs.len().min(b * 64 + 64)] {
            let p: String = s.iter().collect();
            if cheap(&p) {
                totality(&[p], &texts, st)?;
            }
        }
        Ok(())
    });
    // fragments with unsupported or odd features, nested in every operator
    let frag = [
        "a", "", "^", "$", "\\b", "\\B", "\\A", "\\z", "(?m:^)", "(?m:$)", "(?-u:\\xff)", "(?-u:a)", "(?-u:[a-b])", "(?-u:.)", "\\xff", "(?-u:\\b)", "(?P<n>a)", "(?:a)", "(?i)", "(?x)", "\\pL", "\\p{nope}", "[b-a]", "[[:nope:]]", "a**", "{2}", "(?=a)", "\\1", "[^\\x00-\\x{10FFFF}]", "[a&&b]", "a{3,1}", "\\u{110000}", "\\u{d800}", "(?u-i:a)", "(?s-u:.)", "\u{0}",
    ];
    let ctx = ["{}", "{}a", "a{}", "({})", "(a|{})", "({})*", "({})+", "({})?", "({}){2}", "({}){0}", "({}){0,1}", "(({}))", "x({})y", "({}|b)*c", "(?i:{})"];
    let mut odd: Vec<Vec<String>> = vec![];
    for f in frag {
        for c in ctx {
            let p = c.replace("{}", f);
            odd.push(vec![p.clone()]);
            odd.push(vec!["a".into(), p.clone(), "b".into()]);
            for g in frag {
                odd.push(vec![c.replace("{}", &format!("{f}{g}"))]);
                if th {
                    odd.push(vec![c.replace("{}", &format!("{f}|{g}"))]);
                    odd.push(vec![p.clone(), g.to_string()]);
                }
            }
        }
    }
    odd.push(vec![]);
    for n in [1usize, 2, 3] {
        for m in all_strings(&['v', 'i', 'u'], n).into_iter().filter(|m| m.len() == n) {
            odd.push(m.iter().map(|c| match c { 'v' => "ab*", 'i' => "(", _ => "a$" }.to_string()).collect());
        }
    }
    // deep nesting and long patterns
    for d in [10usize, 50, 100, 200] {
        odd.push(vec![format!("{}a{}", "(".repeat(d), ")".repeat(d))]);
        odd.push(vec!["a".repeat(d)]);
        odd.push(vec![vec!["a"; d].join("|")]);
    }
    run.bound("fragments with unsupported or invalid features in every operator context", json!({"lists": odd.len()}));
    let texts2: Vec<Vec<char>> = ["", "a", "ab", "\n", "\u{ff}", "\u{10ffff}\u{0}", "aaa\u{e9}", "ba", "xay", "\u{2603}a"].iter().map(|s| s.chars().collect()).collect();
    run.par("fragments", odd.len(), |i, st| totality(&odd[i], &texts2, st));
    // sizes: every kind of pattern, up to large ones
    let lists: Vec<Pats> = big(th);
    run.bound("sizes around powers of two and above", json!({"lists": lists.len()}));
    run.par("sizes", lists.len(), |i, st| {
        let r = RefDfa::new(&lists[i].re);
        let t: Vec<Vec<char>> = cover(&r, 0).into_iter().rev().take(40).collect();
        totality(&lists[i].strs, &t, st)
    });
    // generous inputs on ordinary lists: every code point class, all lists terminate
    let lists: Vec<Pats> = realistic().into_iter().chain(points()).chain(shorthands(true)).collect();
    run.bound("inputs with every kind of character on ordinary lists", json!({"lists": lists.len()}));
    run.par("ordinary lists", lists.len(), |i, st| {
        let r = RefDfa::new(&lists[i].re);
        let mut t = cover(&r, 400);
        t.extend(POINTS.iter().map(|c| vec![*c]));
        t.push(POINTS.to_vec());
        totality(&lists[i].strs, &t, st)
    });
}
fn totality(ps: &[String], texts: &[Vec<char>], st: &mut Stats) -> R {
    set_group(|| json!({"patterns": ps}));
    let want: Vec<Result<bool, ()>> = ps.iter().map(|p| expect(p)).collect();
    let good = want.iter().all(|w| *w == Ok(true));
    st.add("states", 1); // pattern lists are the states explored here
    let c = || json!({"patterns": ps});
    match build_strs(ps) {
        Err(e) => bad(format!("building panicked: {e}"), c()),
        Ok(Err(e)) => {
            st.add("lists_refused", 1);
            st.add("traces_validated_against_impl", 1);
            st.sample(40_000, "lists_refused", || json!({"patterns": ps, "error": e.lines().next()}));
            if good {
                bad(format!("a list of valid, supported patterns was refused: {e}"), c())
            } else {
                Ok(())
            }
        }
        Ok(Ok((t, _))) => {
            st.add("traces_validated_against_impl", 1);
            if let Some(i) = want.iter().position(|w| w.is_err()) {
                return bad(format!("pattern {i} is not a valid regular expression but the list was accepted"), c());
            }
            if let Some(i) = want.iter().position(|w| *w == Ok(false)) {
                return bad(format!("pattern {i} uses an unsupported feature but the list was accepted"), c());
            }
            let nullable = ps.iter().any(|p| matches_empty(p));
            for w in texts {
                set_input(&w.iter().collect::<String>());
                let lim = w.len() + 10;
                let src: Vec<Item> = w.iter().enumerate().map(|(id, c)| Item { c: *c, id }).collect();
                match guard(|| src.into_iter().tokenize_with(&t, |i: &Item| i.c).take(lim).count()) {
                    Err(e) => return bad(format!("tokenizing panicked: {e}"), case(ps, w)),
                    Ok(n) if n >= lim && !nullable => return bad(format!("{n} tokens from {} characters and no end", w.len()), case(ps, w)),
                    Ok(n) => {
                        st.add("traces_validated_against_impl", 1);
                        st.add("transitions", n as u64 + 1);
                    }
                }
            }
            Ok(())
        }
    }
}
/// does the pattern match the empty string (or contain an empty sub-expression: known finding)
fn matches_empty(p: &str) -> bool {
    let r = from_syntax(p);
    r.has_eps() || !RefDfa::new(&[r]).acc[START].is_empty()
}

// ------------------------------------------------------------------ C07
/// Lists that a record of earlier builds could take for one another: equal when joined, sorted, folded,
/// counted, shortened or summed up.
fn confusable() -> Vec<Vec<String>> {
    let mut v: Vec<Vec<&str>> = vec![
        vec![],
        vec!["abc"], vec!["ab", "c"], vec!["a", "bc"], vec!["a", "b", "c"], vec!["c", "b", "a"], vec!["a", "c", "b"], vec!["a|b|c"], vec!["a|b", "c"], vec!["[abc]"], vec!["a", "b|c"],
        vec!["a,b"], vec!["a b"], vec!["a\nb"], vec!["a\0b"], vec!["a;b"], vec!["a", "b"], vec!["b", "a"], vec!["a", "b", "a"], vec!["a", "a", "b"], vec!["a", "a"], vec!["a"], vec!["b"], vec!["A"], vec!["A", "b"], vec!["a", "B"], vec!["(?i)a"],
        vec![" a"], vec!["a "], vec!["ad"], vec!["bc"], vec!["da"], vec!["cb"], vec!["aa"], vec!["bb"], vec!["ab"], vec!["ba"], vec!["a+"], vec!["a*"], vec!["a?"], vec!["a.b"], vec!["a\\.b"], vec!["(ab)"], vec!["(?:ab)"],
        vec!["(a)(b)"], vec!["a{2}"], vec!["a{3}"], vec!["a{1,2}"], vec!["a{2,}"], vec!["[a-c]"], vec!["[a-b]"], vec!["[a-c]", "b"], vec!["b", "[a-c]"], vec!["[ac]", "b"], vec!["\\x61"], vec!["\\x{62}"],
        vec!["abcabcabcabcabca"], vec!["abcabcabcabcabcb"], vec!["abcabcabcabcabcabcabcabcabcabcaba"], vec!["abcabcabcabcabcabcabcabcabcabcabb"],
        vec!["[a-b]c|a"], vec!["[a-b]a|c"], vec!["a", "b", "c", "ab"], vec!["a", "b", "c", "bc"], vec!["a", "b", "c", "ab", "bc", "ca", "abc", "bca"], vec!["a", "b", "c", "ab", "bc", "ca", "abc", "cab"],
    ];
    v.dedup();
    v.into_iter().map(|l| l.into_iter().map(|s| s.to_string()).collect()).collect()
}
fn confusable_words() -> Vec<Vec<char>> {
    let mut w = all_strings(&['a', 'b', 'c'], 3);
    for s in ["a,b", "a b", " a ", "A", "Aa", "aB", "d", "ad", "bcd", "a.b", "axb", "a;b", "a\nb", "a\0b", "aaaa", "ababab", "abcabcabcabcabca", "abcabcabcabcabcb", "abcabcabcabcabcabcabcabcabcabcaba", "abcabcabcabcabcabcabcabcabcabcabb"] {
        w.push(s.chars().collect());
    }
    w
}
pub fn fresh(i: usize) -> String {
    format!("{:?}", behave(&confusable()[i], &confusable_words()))
}
type Run1 = (Vec<Vec<(usize, String)>>, BTreeSet<String>);
fn behave(ps: &[String], ws: &[Vec<char>]) -> Result<Run1, String> {
    let (t, w) = match build_strs(ps) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return Err(format!("refused: {e}")),
        Err(e) => return Err(format!("panicked: {e}")),
    };
    let mut out = vec![];
    for x in ws {
        out.push(tokens(&t, x)?);
    }
    Ok((out, w.into_iter().collect()))
}
fn tokens(t: &Real, w: &[char]) -> Result<Vec<(usize, String)>, String> {
    let src: Vec<Item> = w.iter().enumerate().map(|(id, c)| Item { c: *c, id }).collect();
    guard(|| src.into_iter().tokenize_with(t, |i: &Item| i.c).take(w.len() + 3).map(|k| (k.pat, k.text)).collect())
}
/// what the reference automaton says
pub fn expected(r: &RefDfa, w: &[char]) -> Vec<(usize, String)> {
    let mut out = vec![];
    let mut pos = 0;
    while out.len() < w.len() + 3 {
        match r.longest(&w[pos..]).0 {
            None => break,
            Some((l, p)) => {
                out.push((p, w[pos..pos + l].iter().collect()));
                pos += l;
            }
        }
    }
    out
}
pub fn c07(run: &mut Run) {
    let th = run.thorough();
    // (a) hash seeds
    let seeds: u64 = if th { 400 } else { 48 };
    let mut lists: Vec<Pats> = realistic().into_iter().filter(|p| p.strs.len() < 20).collect();
    lists.extend(ranges(false).into_iter().step_by(if th { 3 } else { 17 }));
    lists.extend(pairs(&UNARY5, 3).into_iter().step_by(if th { 2 } else { 9 }));
    lists.extend(triples(&UNARY5, 2).into_iter().step_by(if th { 1 } else { 4 }));
    lists.extend(singles(&UNARY5, 4).into_iter().step_by(if th { 1 } else { 3 }));
    lists.push(Pats::syn(&["q{0}", "x[a-c]|y[a-d]"]));
    lists.push(Pats::syn(&["x[a-c]|y[a-d]|z[b-d]", "x[a-d]"]));
    run.bound("hash seeds", json!({"lists": lists.len(), "seeds": seeds}));
    run.par("hash seeds", lists.len(), |i, st| {
        let p = &lists[i];
        let r = RefDfa::new(&p.re);
        count_ref(st, &r);
        let ws = cover(&r, 60);
        set_group(|| json!({"patterns": p.strs}));
        let mut first: Option<Result<Run1, String>> = None;
        for s in 0..seeds {
            let seed = env_seed().wrapping_mul(0x1_0000) + s;
            set_input(&format!("hash seed {seed}"));
            let b = with_hash_seed(seed, || behave(&p.strs, &ws));
            st.add("traces_validated_against_impl", 1);
            match &first {
                None => first = Some(b),
                Some(f) if *f == b => {}
                Some(f) => {
                    let d = match (f, &b) {
                        (Ok(x), Ok(y)) => ws.iter().zip(x.0.iter().zip(&y.0)).find(|(_, (a, b))| a != b).map(|(w, (a, b))| format!("input {:?}: {a:?} vs {b:?}", w.iter().collect::<String>())).unwrap_or(format!("warnings {:?} vs {:?}", x.1, y.1)),
                        (x, y) => format!("{:?} vs {:?}", x.is_ok(), y.is_ok()),
                    };
                    return bad(format!("two builds under different hash seeds differ: {d}"), json!({"patterns": p.strs, "hash_seeds": [env_seed().wrapping_mul(0x1_0000), seed]}));
                }
            }
        }
        Ok(())
    });
    // (b) histories: all sequences of <= 3 uses of one tokenizer (complete, abandoned after k tokens,
    //     never started) followed by every input
    let hl: Vec<Pats> = vec![Pats::syn(&["a*b", "a", "b*c", "b", "c"]), Pats::syn(&["ab|a", "b+", "c?"]), Pats::syn(&["a{2,}", "ab", "[ab]", "c"]), Pats::syn(LISTS[2]), Pats::syn(LISTS[0])];
    let hw: Vec<Vec<char>> = all_strings(&['a', 'b', 'c'], if th { 4 } else { 3 });
    let hist: Vec<Vec<usize>> = crate::gram::words(&(0..12).collect::<Vec<_>>(), 3);
    run.bound("histories of uses of one tokenizer", json!({"lists": hl.len(), "histories": hist.len(), "inputs": hw.len()}));
    run.par("histories", hl.len() * hist.len(), |i, st| {
        let p = &hl[i % hl.len()];
        let h = &hist[i / hl.len()];
        let (t, _) = build_ok(&p.strs)?;
        let (fresh, _) = build_ok(&p.strs)?;
        let texts: [&str; 4] = ["aab", "abcaa", "cb#a", ""];
        for op in h {
            let w: Vec<char> = texts[op % 4].chars().collect();
            let k = [usize::MAX, 1, 0][op / 4];
            let src: Vec<Item> = w.iter().enumerate().map(|(id, c)| Item { c: *c, id }).collect();
            if let Err(e) = guard(|| src.into_iter().tokenize_with(&t, |i: &Item| i.c).take(k.min(8)).count()) {
                return bad(format!("panicked: {e}"), case(&p.strs, &w));
            }
            st.add("transitions", 1);
        }
        for w in &hw {
            let got = tokens(&t, w);
            let want = tokens(&fresh, w);
            st.add("traces_validated_against_impl", 1);
            if got != want || got.is_err() {
                return bad(format!("after a history of {} uses the tokens of {:?} are {got:?}, a fresh tokenizer gives {want:?}", h.len(), w.iter().collect::<String>()), json!({"patterns": p.strs, "history": h, "input": w.iter().collect::<String>()}));
            }
        }
        st.add("states", 1);
        Ok(())
    });
    // (c) interleavings of two uses of one tokenizer: all schedules of their next() calls
    let texts: Vec<Vec<char>> = ["", "a", "aab", "abc", "bbca", "aaaa", "cab"].iter().map(|s| s.chars().collect()).collect();
    run.bound("interleavings of two iterators", json!({"lists": hl.len(), "text pairs": texts.len() * texts.len(), "schedules": "all"}));
    run.par("interleavings", hl.len() * texts.len() * texts.len(), |i, st| {
        let p = &hl[i % hl.len()];
        let k = i / hl.len();
        let (x, y) = (&texts[k % texts.len()], &texts[k / texts.len()]);
        let (t, _) = build_ok(&p.strs)?;
        let (fresh, _) = build_ok(&p.strs)?;
        // calls of next() per iterator: up to and including the first None, at most 5
        let alone = |w: &[char]| tokens(&fresh, w).map(|v| { let n = if v.len() < w.len() + 3 { (v.len() + 1).min(5) } else { v.len().min(5) }; (v.into_iter().take(n).collect::<Vec<_>>(), n) });
        let (Ok((ex, nx)), Ok((ey, ny))) = (alone(x), alone(y)) else {
            return bad("tokenizing panicked", json!({"patterns": p.strs, "inputs": [x.iter().collect::<String>(), y.iter().collect::<String>()]}));
        };
        let n = nx + ny;
        for m in 0u32..1 << n {
            if m.count_ones() as usize != nx {
                continue;
            }
            let mk = |w: &[char]| w.iter().enumerate().map(|(id, c)| Item { c: *c, id }).collect::<Vec<_>>().into_iter();
            let res = guard(|| {
                let mut a = mk(x).tokenize_with(&t, |i: &Item| i.c);
                let mut b = mk(y).tokenize_with(&t, |i: &Item| i.c);
                let (mut ga, mut gb) = (vec![], vec![]);
                let (mut da, mut db) = (false, false);
                for bit in 0..n {
                    if m >> bit & 1 == 1 {
                        if !da { match a.next() { Some(k) => ga.push((k.pat, k.text)), None => da = true } }
                    } else if !db { match b.next() { Some(k) => gb.push((k.pat, k.text)), None => db = true } }
                }
                (ga, gb)
            });
            st.add("traces_validated_against_impl", 1);
            st.add("transitions", n as u64);
            if res != Ok((ex.clone(), ey.clone())) {
                return bad(format!("interleaved uses (schedule {m:b}) gave {res:?}, alone {ex:?} and {ey:?}"), json!({"patterns": p.strs, "inputs": [x.iter().collect::<String>(), y.iter().collect::<String>()], "schedule": format!("{m:b}")}));
            }
        }
        st.add("states", 1);
        Ok(())
    });
    // (d) whatever was built before: every ordered pair (thorough: triple) of lists built in one thread
    let bl: Vec<Pats> = vec![Pats::syn(&["a"]), Pats::syn(&["b"]), Pats::syn(&["a", "b"]), Pats::syn(&["b", "a"]), Pats::syn(&["a+"]), Pats::syn(&["(a|b)*a"]), Pats::syn(&["[a-c]", "b"]), Pats::syn(&["ab", "a"]), Pats::syn(&[]), Pats::syn(&["a{3}", "c"])];
    let seqs: Vec<Vec<usize>> = crate::gram::words(&(0..bl.len()).collect::<Vec<_>>(), 3);
    let bw = all_strings(&['a', 'b', 'c'], 3);
    run.bound("histories of builds", json!({"sequences": seqs.len()}));
    // one reference behaviour per list; every history must reproduce it
    let base: Vec<Result<Run1, String>> = bl.iter().map(|p| behave(&p.strs, &bw)).collect();
    run.par("build histories", seqs.len(), |i, st| {
        for (n, &k) in seqs[i].iter().enumerate() {
            let got = behave(&bl[k].strs, &bw);
            st.add("traces_validated_against_impl", bw.len() as u64);
            st.add("transitions", 1);
            if got != base[k] || got.is_err() {
                return bad(format!("built after {n} other tokenizers, the tokenizer behaves differently: {:?} instead of {:?}", got.map(|x| x.1), base[k].as_ref().map(|x| &x.1)), json!({"patterns": bl[k].strs, "history": seqs[i]}));
            }
        }
        st.add("states", 1);
        Ok(())
    });
    // (e) every history of building, using and dropping tokenizers in one thread: the storage of a dropped
    //     tokenizer is reused by the next one, nothing else of it may be
    let el: Vec<Pats> = vec![Pats::syn(&["a"]), Pats::syn(&["b"]), Pats::syn(&["b", "a"]), Pats::syn(&["ab|c"]), Pats::syn(&["a*b", "c"])];
    let ew: Vec<Vec<char>> = ["a", "b", "ab", "cca"].iter().map(|s| s.chars().collect()).collect();
    let want: Vec<Vec<Result<Vec<(usize, String)>, String>>> = el.iter().map(|p| match build_ok(&p.strs) { Ok((t, _)) => ew.iter().map(|w| tokens(&t, w)).collect(), Err(_) => vec![] }).collect();
    let eseeds: u64 = if th { 24 } else { 6 };
    let depth = if th { 6 } else { 5 };
    let (nl, nw) = (el.len(), ew.len());
    let alpha = 2 * nl + nw;
    let firsts = nl * alpha;
    run.bound("histories of building, using and dropping", json!({"operations": alpha, "depth": depth, "hash seeds": eseeds}));
    run.par("build, use and drop", firsts * eseeds as usize, |i, st| {
        let (head, seed) = (i % firsts, (i / firsts) as u64);
        let (first, second) = (head / alpha, head % alpha);
        let tails = crate::gram::words(&(0..alpha).collect::<Vec<_>>(), depth - 3);
        let (el, ew, want, tails) = (&el, &ew, &want, &tails);
        let (n, wrong) = with_hash_seed(env_seed().wrapping_mul(0x1_0000) + seed, move || {
            let mut n = (0u64, 0u64);
            for tail in tails {
                for last in 0..nw {
                    let mut ops = vec![first, second];
                    ops.extend(tail.iter().copied());
                    ops.push(2 * nl + last);
                    let mut cur: Option<(usize, Real)> = None;
                    for op in &ops {
                        n.0 += 1;
                        if *op < 2 * nl {
                            // the previous tokenizer is dropped before, or only after, the new one is built
                            if *op < nl {
                                cur = None;
                            }
                            match build_ok(&el[op % nl].strs) {
                                Ok((t, _)) => cur = Some((op % nl, t)),
                                Err(e) => return (n, Some(e)),
                            }
                        } else if let Some((k, t)) = &cur {
                            let w = op - 2 * nl;
                            let got = tokens(t, &ew[w]);
                            if got.is_err() || want[*k].get(w) != Some(&got) {
                                let input = ew[w].iter().collect::<String>();
                                let why = format!("in a history of building, using and dropping tokenizers the tokens of {input:?} are {got:?}");
                                return (n, bad::<()>(why, json!({"patterns": el[*k].strs, "input": input, "history": ops, "hash_seed": seed})).err());
                            }
                        }
                    }
                    n.1 += 1;
                }
            }
            (n, None)
        });
        st.add("transitions", n.0);
        st.add("traces_validated_against_impl", n.1);
        if let Some(e) = wrong {
            return Err(e);
        }
        st.add("states", 1);
        Ok(())
    });
    // (f) a use inside another one: the source, or the item-to-character function, tokenizes something else
    //     with the same tokenizer, or with another one, at every point of the outer use
    let fw: Vec<Vec<char>> = all_strings(&['a', 'b', 'c'], if th { 4 } else { 3 });
    run.bound("nested uses", json!({"pairs of lists": hl.len() * hl.len(), "inputs": fw.len(), "start": "every item asked for and every item mapped"}));
    run.par("nested uses", hl.len() * hl.len(), |i, st| {
        let (a, b) = (&hl[i % hl.len()], &hl[i / hl.len()]);
        let (t, _) = build_ok(&a.strs)?;
        let (u, _) = build_ok(&b.strs)?;
        let u = if i % hl.len() == i / hl.len() { &t } else { &u };
        let inner: Vec<Vec<char>> = ["aab", "abcaa", "c"].iter().map(|s| s.chars().collect()).collect();
        for w in &fw {
            let alone = tokens(&t, w);
            for x in &inner {
                let inside = tokens(u, x);
                for k in 0..2 * w.len() + 1 {
                    let mut differs = None;
                    let n = std::cell::Cell::new(0);
                    let seen = std::cell::RefCell::new(None);
                    let tick = |mine: usize| {
                        if mine == k {
                            *seen.borrow_mut() = Some(tokens(u, x));
                        }
                    };
                    let src: Vec<Item> = w.iter().enumerate().map(|(id, c)| Item { c: *c, id }).collect();
                    let mut src = src.into_iter();
                    let src = std::iter::from_fn(|| {
                        tick(2 * n.get());
                        n.set(n.get() + 1);
                        src.next()
                    });
                    let got = guard(|| src.tokenize_with(&t, |i: &Item| { tick(2 * i.id + 1); i.c }).take(w.len() + 3).map(|k| (k.pat, k.text)).collect::<Vec<_>>());
                    st.add("traces_validated_against_impl", 2);
                    let seen = seen.into_inner();
                    if got != alone || (seen.is_some() && seen.as_ref() != Some(&inside)) {
                        differs = Some(format!("tokenizing {:?} inside a use on {:?} (point {k}) gives {seen:?} and {got:?}; alone they give {inside:?} and {alone:?}", x.iter().collect::<String>(), w.iter().collect::<String>()));
                    }
                    if let Some(d) = differs {
                        return bad(d, json!({"patterns": a.strs, "input": w.iter().collect::<String>(), "inner_patterns": b.strs, "inner_input": x.iter().collect::<String>()}));
                    }
                }
            }
        }
        st.add("states", 1);
        Ok(())
    });
    // (g) every ordered pair of confusable lists, built one after the other, against what a process gives
    //     that built only the second
    let (cl, cw) = (confusable(), confusable_words());
    let alone: Vec<std::sync::Mutex<String>> = cl.iter().map(|_| Default::default()).collect();
    run.bound("related builds", json!({"lists": cl.len(), "histories": "every ordered pair, in a thread of its own and in both orders of dropping", "compared with": "a process that builds nothing else"}));
    run.par("fresh processes", cl.len(), |i, st| {
        st.add("processes", 1);
        match fresh_process("C07", i) {
            Ok(s) => {
                *alone[i].lock().unwrap() = s;
                Ok(())
            }
            Err(e) => bad(format!("a process that builds only this tokenizer fails: {e}"), json!({"patterns": cl[i]})),
        }
    });
    let alone: Vec<String> = alone.into_iter().map(|m| m.into_inner().unwrap()).collect();
    run.par("related builds", cl.len() * cl.len(), |i, st| {
        let (a, b) = (i / cl.len(), i % cl.len());
        for keep in [false, true] {
            let got = with_hash_seed(env_seed().wrapping_mul(0x1_0000) + i as u64 % 5, || {
                let first = build_strs(&cl[a]);
                let kept = if keep { Some(first) } else { drop(first); None };
                let r = format!("{:?}", behave(&cl[b], &cw));
                drop(kept);
                r
            });
            st.add("traces_validated_against_impl", cw.len() as u64);
            st.add("transitions", 2);
            if got != alone[b] {
                let cut = |s: &str| s.chars().take(300).collect::<String>();
                return bad(format!("built after {:?} the tokenizer behaves differently than in a process of its own: {} instead of {}", cl[a], cut(&got), cut(&alone[b])), json!({"patterns": cl[b], "built before": cl[a]}));
            }
        }
        st.add("states", 1);
        Ok(())
    });
    // (h) two builders filled in turns: every interleaving of their pattern() calls, built in both orders
    let il: Vec<usize> = (0..cl.len()).filter(|i| (1..=3).contains(&cl[*i].len())).collect();
    run.bound("interleaved builders", json!({"pairs of lists": il.len() * il.len(), "schedules": "all"}));
    run.par("interleaved builders", il.len() * il.len(), |i, st| {
        let (a, b) = (il[i / il.len()], il[i % il.len()]);
        let n = cl[a].len() + cl[b].len();
        for m in 0u32..1 << n {
            if m.count_ones() as usize != cl[a].len() {
                continue;
            }
            let r = guard(|| {
                let mut x = DFATokenizer::<Tok, Item>::builder();
                let mut y = DFATokenizer::<Tok, Item>::builder();
                let (mut p, mut q) = (0, 0);
                for k in 0..n {
                    if m >> k & 1 == 1 {
                        let pat = p;
                        x = x.pattern(&cl[a][p], move |s, items| Tok { pat, text: s.to_string(), items });
                        p += 1;
                    } else {
                        let pat = q;
                        y = y.pattern(&cl[b][q], move |s, items| Tok { pat, text: s.to_string(), items });
                        q += 1;
                    }
                }
                let (x, y) = if m & 1 == 1 { let x = x.build(); (x, y.build()) } else { let y = y.build(); (x.build(), y) };
                (x.map(|t| t.0).map_err(|e| format!("{e:?}")), y.map(|t| t.0).map_err(|e| format!("{e:?}")))
            });
            let Ok((Ok(x), Ok(y))) = r else {
                return bad("two builders filled in turns: building fails", json!({"patterns": cl[a], "other": cl[b], "schedule": format!("{m:b}")}));
            };
            for (t, k) in [(&x, a), (&y, b)] {
                let (f, _) = build_ok(&cl[k])?;
                for w in cw.iter().step_by(3) {
                    st.add("traces_validated_against_impl", 1);
                    let (got, want) = (tokens(t, w), tokens(&f, w));
                    if got != want {
                        return bad(format!("filled in turns with another builder: {got:?} instead of {want:?}"), json!({"patterns": cl[k], "other": [cl[a].clone(), cl[b].clone()], "schedule": format!("{m:b}"), "input": w.iter().collect::<String>()}));
                    }
                }
            }
            st.add("transitions", n as u64);
        }
        st.add("states", 1);
        Ok(())
    });
    run.stats.add("seed_source_calls", seed_calls());
}

pub fn replay(c: &Value) {
    let ps: Vec<String> = c["patterns"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
    let w: Vec<char> = c["input"].as_str().unwrap_or("").chars().collect();
    println!("patterns: {ps:?}\ninput:    {:?}", w.iter().collect::<String>());
    match build_strs(&ps) {
        Err(e) => println!("building panics: {e}"),
        Ok(Err(e)) => println!("building refuses: {e}"),
        Ok(Ok((t, ws))) => {
            println!("warnings: {ws:?}");
            println!("tokens:   {:?}", tokens(&t, &w));
        }
    }
    if ps.iter().all(|p| expect(p) == Ok(true)) {
        let r = RefDfa::new(&ps.iter().map(|p| from_syntax(p)).collect::<Vec<_>>());
        println!("expected: {:?}\noverlapping patterns: {:?}", expected(&r, &w), r.overlapping());
    }
}
