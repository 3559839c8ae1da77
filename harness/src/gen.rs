//! C08 / C19: emits crates full of macro invocations, and the comparison with the run-time builders
//! those crates call.
use crate::fam::*;
use crate::gram::{self, Grammar, Lr, Out, Sy};
use crate::rx::*;
use crate::util::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::fmt::{Debug, Write as _};
use tokenizer::{DFATokenizer, Tokenize};

pub fn emit(which: &str, th: bool) {
    let dir = format!("{}/gen/{which}", verif_dir());
    std::fs::create_dir_all(format!("{dir}/src")).expect("mkdir");
    if which == "bad" {
        let deps: String = ["tokenizer", "parser", "tokenizer_generator", "parser_generator"].iter().map(|d| format!("{d} = {{ path = \"/repo/{d}\" }}\n")).collect();
        put(&format!("{dir}/Cargo.toml"), &format!("[package]\nname = \"gen_bad\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n[dependencies]\n{deps}"));
        return put(&format!("{dir}/src/lib.rs"), "");
    }
    let (name, dep) = match which {
        "tok" => ("gen_tok", "tokenizer_generator"),
        "par" => ("gen_par", "parser_generator"),
        _ => panic!("emit tok|par"),
    };
    // the features of `mc` follow the build that emits
    let feat = if cfg!(feature = "tables") { "" } else { ", default-features = false" };
    let toml = format!("[package]\nname = \"{name}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n[dependencies]\nmc = {{ path = \"{}/harness\"{feat} }}\ntokenizer = {{ path = \"/repo/tokenizer\" }}\nparser = {{ path = \"/repo/parser\" }}\n{dep} = {{ path = \"/repo/{dep}\" }}\nserde_json = \"1\"\n\n[profile.release]\nopt-level = 0\ncodegen-units = 64\nincremental = false\noverflow-checks = true\ndebug-assertions = true\n[profile.release.package.mc]\nopt-level = 3\n[profile.release.package.tokenizer]\nopt-level = 3\n[profile.release.package.parser]\nopt-level = 3\n", verif_dir());
    put(&format!("{dir}/Cargo.toml"), &toml);
    put(&format!("{dir}/src/main.rs"), &if which == "tok" { emit_tok(th) } else { emit_par(th) });
}
fn put(path: &str, s: &str) {
    if std::fs::read_to_string(path).ok().as_deref() != Some(s) {
        std::fs::write(path, s).expect("write generated crate");
    }
}

// ------------------------------------------------------------------ tokenizer!
pub fn tok_lists(th: bool) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let s = |l: &[&str]| l.iter().map(|x| x.to_string()).collect::<Vec<String>>();
    v.extend(LISTS.iter().map(|l| s(l)));
    v.extend(PUMPS.iter().map(|p| s(p.0)));
    v.extend(LINEAR.iter().map(|p| s(p.0)));
    for n in [1usize, 2, 10, 60, 130] {
        v.push((0..n).map(|i| format!("k{i}")).collect());
        v.push((0..n).rev().map(|i| format!("[a-z]{{{}}}", i + 1)).take(20).collect());
    }
    // literals whose spelling needs care: quotes, backslashes, raw-string ends, line breaks, non-ASCII
    for l in [
        &["\"", "\\\\", "'"][..],
        &["\"#", "#\"", "\"##", "#"],
        &["\\n", "\n", "\\t|\t", "\\r"],
        &["\u{e9}", "\u{10ffff}", "\u{0}", "[\u{3040}-\u{30ff}]+"],
        &["\\x{0}", "\\x{10FFFF}", "[\\x{D7FF}-\\x{E000}]"],
        &["\\{", "\\}", "\\[", "\\]", "\\(", "\\)", "\\|", "\\.", "\\*", "\\+", "\\?", "\\^", "\\$"],
        &["a*", "b"],
        &["(ab)*", "a", "b?"],
        &["[^a]", "a+"],
        &["(?i)select|from", "[a-zA-Z]+", "\\s+"],
        &["a", "a"],
        &["aa|b", "a", "aa|b", "[ab]+"],
        &["c", "b", "a", "[abc]{2}", "[abc]{3}", "abc"],
        // white space and comments, inside, before and after
        &[" "],
        &["a ", "a", " a", " "],
        &["  ", " ", "\t", "\n\n", "\n"],
        &["(?x) a b # comment", "a", "b"],
        &["(?x)\n a  # one\n | b\\ c # two\n", "#", " "],
        &["(?i)a(?-i)b", "(?i:ab)", "aB"],
        &["(?s).", "a"],
        &["(?U)a+b", "a"],
        &["(?P<name>a)+b", "(?:a)"],
        &["//", "/\\*", "// a", "\\\\n", "\\\\"],
        &["}", "%", "a}", "#", "##", "@", "&&", "~", "`", ";", ",", "=>", "->", "]"],
        &["A", "a", "AA", "Aa", "aa"],
        &["\u{e9}", "e\u{301}", "e", "\u{fb01}", "fi"],
        &["\u{feff}", "\u{200b}", "\u{a0}", "[ ]"],
        &["if", "r#if", "self", "_", "__", "_a"],
        &["0", "00", "1", "-1", "1.0", "1\\.0"],
    ] {
        v.push(s(l));
    }
    let take = |v: Vec<Pats>, n: usize| {
        let k = v.len().div_ceil(n).max(1);
        v.into_iter().step_by(k).map(|p| p.strs).collect::<Vec<_>>()
    };
    v.extend(singles(&UNARY5, 2).into_iter().map(|p| p.strs));
    v.extend(take(pairs(&UNARY5, 2), 400));
    v.extend(take(triples(&UNARY5, 2), if th { 300 } else { 60 }));
    v.extend(take(singles(&UNARY5, 4), if th { 300 } else { 60 }));
    v.extend(take(points(), if th { 150 } else { 40 }));
    v.extend(take(ranges(false), if th { 250 } else { 60 }));
    v.extend(take(shorthands(false).into_iter().filter(|p| p.strs.len() == 1).collect(), if th { 60 } else { 20 }));
    v.extend(take(counted_family(4), if th { 150 } else { 30 }));
    v.extend(take(big(false).into_iter().filter(|p| p.strs.iter().map(|s| s.len()).sum::<usize>() < if th { 2000 } else { 700 }).collect(), if th { 150 } else { 50 }));
    // lists, classes, counts and literals of each size
    for n in [16u32, 17, 32, 33, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300] {
        if th || [17, 33, 65, 129, 257].contains(&n) {
            v.push(vec![format!("a{{{n}}}"), "a".into()]);
            v.push(vec![(0..n).map(|k| char::from_u32(0x4e00 + 2 * k).unwrap()).fold("[".to_string(), |a, c| format!("{a}{c}")) + "]", "[\u{4e00}-\u{6000}]+".into()]);
            v.push((0..n).map(|k| char::from_u32(0x4e00 + k).unwrap().to_string()).collect());
        }
    }
    for l in v.iter_mut() {
        l.retain(|p| !p.is_empty());
    }
    v.retain(|l| !l.is_empty());
    let mut seen = BTreeSet::new();
    v.retain(|l| seen.insert(l.clone()));
    v
}
fn raw_lit(s: &str) -> String {
    if s.contains('\r') {
        return format!("{s:?}");
    }
    let mut h = String::new();
    while s.contains(&format!("\"{h}")) {
        h.push('#');
    }
    format!("r{h}\"{s}\"{h}")
}
fn emit_tok(th: bool) -> String {
    let lists = tok_lists(th);
    let mut o = String::from("#![allow(warnings)]\nfn make<const P: usize, I>(s: &str, items: Vec<I>) -> (usize, String, Vec<I>) { (P, s.to_string(), items) }\n");
    for (i, l) in lists.iter().enumerate() {
        let ty = ["mc::tok::Item", "char", "(char, usize)"][i % 3];
        let out = ["(usize, String, Vec<C>)", "super::mc_gen::G<C>"][i % 2].replace('C', ty).replace("super::mc_gen", "mc::gen");
        let vis = ["", "pub ", "pub(crate) ", "pub(super) "][i / 3 % 4];
        let _ = write!(o, "mod m{i} {{\nuse super::make;\ntokenizer_generator::tokenizer! {{\n{vis}fn lexer() -> DFATokenizer {{\ncharacter {ty};\ntoken {out};\n");
        for (k, p) in l.iter().enumerate() {
            let lit = if (i + k) % 2 == 0 { raw_lit(p) } else { format!("{p:?}") };
            let ctor = match (i + k) % 4 {
                0 => format!("|s, items| ({k}usize, s.to_string(), items)"),
                1 => format!("make::<{k}, {ty}>"),
                2 => format!("{{ let k = {k}usize; move |s: &str, v: Vec<{ty}>| (k, String::from(s), v) }}"),
                _ => format!("|text: &str, v| {{ let t = text.to_owned(); ({k}, t, v) }}"),
            };
            let sep = if k + 1 < l.len() || i % 2 == 0 { ";" } else { "" };
            let _ = writeln!(o, "{lit}: {ctor}{sep}");
        }
        let _ = write!(o, "}}\n}}\npub fn get() -> tokenizer::DFATokenizer<(usize, String, Vec<{ty}>), {ty}> {{ lexer() }}\n}}\n");
    }
    o.push_str("fn main() { mc::gen::tok_main(&[\n");
    for (i, l) in lists.iter().enumerate() {
        let mk = ["|c, id| mc::tok::Item { c, id }, |i: &mc::tok::Item| i.c", "|c, _| c, |c: &char| *c", "|c, n| (c, n), |p: &(char, usize)| p.0"][i % 3];
        let _ = writeln!(o, "(&{l:?}, &|p, st, th| mc::gen::tok_case(p, st, th, m{i}::get, {mk})),");
    }
    o.push_str("]); }\n");
    o
}
pub type G<I> = (usize, String, Vec<I>);
type TokCase<'a> = (&'a [&'a str], &'a (dyn Fn(&[&str], &mut Stats, bool) -> R + Sync));
pub fn tok_main(cases: &[TokCase]) {
    let tier = std::env::args().nth(1).unwrap_or_else(|| "quick".into());
    init("C08", &tier);
    let mut run = Run::new("C08", &tier);
    let th = run.thorough();
    run.bound("tokenizer! invocations", cases.len());
    run.bound("inputs per invocation", "a cover of every reference state and transition, all short strings over the pattern's letters; the two automata are also explored as a product");
    run.par("macro invocations", cases.len(), |i, st| cases[i].1(cases[i].0, st, th));
    run.finish("model_checking")
}
pub fn tok_case<I: PartialEq + Debug + 'static>(pats: &[&str], st: &mut Stats, th: bool, get: fn() -> DFATokenizer<G<I>, I>, mk: impl Fn(char, usize) -> I, key: impl Fn(&I) -> char + Copy) -> R {
    let ps: Vec<String> = pats.iter().map(|s| s.to_string()).collect();
    set_group(|| json!({"patterns": ps}));
    let c = |w: &[char]| crate::tok::case(&ps, w);
    let rt = match guard(|| {
        let mut b = DFATokenizer::<G<I>, I>::builder();
        for (i, p) in ps.iter().enumerate() {
            b = b.pattern(p, move |s, items| (i, s.to_string(), items));
        }
        b.build().map(|x| x.0).map_err(|e| format!("{e:?}"))
    }) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) | Err(e) => return bad(format!("the run-time builder refuses or panics ({e}) although the macro accepts"), c(&[])),
    };
    let gen = match guard(get) {
        Ok(t) => t,
        Err(e) => return bad(format!("the generated function panicked: {e}"), c(&[])),
    };
    #[cfg(feature = "tables")]
    {
        let (s, t) = bisimulate(&gen, &rt).or_else(|(w, why)| bad(format!("generated and run-time automaton differ after {w:?}: {why}"), c(&w.chars().collect::<Vec<_>>())))?;
        st.add("states", s);
        st.add("transitions", t);
    }
    let r = RefDfa::new(&ps.iter().map(|p| from_syntax(p)).collect::<Vec<_>>());
    #[cfg(not(feature = "tables"))]
    {
        st.add("states", r.next.len() as u64);
        st.add("transitions", (r.next.len() * r.cuts.len()) as u64);
    }
    let mut ws = cover(&r, if th { 4000 } else { 600 });
    let mut al: Vec<char> = r.reps(false);
    al.truncate(6);
    let mut n = 1;
    while al.len().pow(n as u32 + 1) < if th { 20_000 } else { 1500 } && n < 9 && al.len() > 1 {
        n += 1;
    }
    ws.extend(all_strings(&al, n));
    for w in &ws {
        set_input(&w.iter().collect::<String>());
        let go = |t: &DFATokenizer<G<I>, I>| {
            let src: Vec<I> = w.iter().enumerate().map(|(i, x)| mk(*x, i)).collect();
            guard(|| src.into_iter().tokenize_with(t, key).take(w.len() + 3).collect::<Vec<_>>())
        };
        let (a, b) = (go(&gen), go(&rt));
        st.add("traces_validated_against_impl", 1);
        st.add("tokens_compared", b.as_ref().map(|b| b.len()).unwrap_or(0) as u64);
        if a != b || a.is_err() {
            return bad(format!("tokenizer! gives {a:?}, the run-time builder {b:?}"), c(w));
        }
    }
    st.add("invocations", 1);
    st.sample(90, "invocations", || json!({"patterns": ps, "inputs": ws.len()}));
    Ok(())
}
#[cfg(feature = "tables")]
/// Explores all pairs of states the two automata reach together, over all code points.
fn bisimulate<I>(a: &DFATokenizer<G<I>, I>, b: &DFATokenizer<G<I>, I>) -> Result<(u64, u64), (String, String)> {
    use std::collections::{HashMap, VecDeque};
    let step = |t: &DFATokenizer<G<I>, I>, s: usize, c: u32| t.goto[s].iter().find(|(r, _)| r.range.start <= c && c < r.range.end).map(|(_, n)| *n);
    let mut seen: HashMap<(usize, usize), String> = HashMap::from([((a.begin, b.begin), String::new())]);
    let mut q = VecDeque::from([(a.begin, b.begin)]);
    let mut tr = 0;
    while let Some((x, y)) = q.pop_front() {
        let w = seen[&(x, y)].clone();
        if x >= a.goto.len() || y >= b.goto.len() {
            return Err((w, "a state that does not exist is reached".into()));
        }
        if a.end.get(&x) != b.end.get(&y) {
            return Err((w, format!("accepts {:?} instead of {:?}", a.end.get(&x), b.end.get(&y))));
        }
        let mut cuts: Vec<u32> = a.goto[x].keys().chain(b.goto[y].keys()).flat_map(|r| [r.range.start.min(MAXC), r.range.end.min(MAXC)]).chain([0, MAXC]).collect();
        cuts.sort_unstable();
        cuts.dedup();
        for k in cuts.windows(2) {
            let Some(c) = (k[0]..k[1]).find_map(char::from_u32) else { continue };
            tr += 1;
            let mut w2 = w.clone();
            w2.push(c);
            match (step(a, x, c as u32), step(b, y, c as u32)) {
                (None, None) => {}
                (Some(m), Some(n)) => {
                    if !seen.contains_key(&(m, n)) {
                        seen.insert((m, n), w2);
                        q.push_back((m, n));
                    }
                }
                (m, n) => return Err((w2, format!("{} instead of {}", if m.is_some() { "goes on" } else { "stops" }, if n.is_some() { "going on" } else { "stopping" }))),
            }
        }
    }
    Ok((seen.len() as u64, tr))
}

// ------------------------------------------------------------------ parser!
/// (grammar, way of writing it down)
pub fn par_grammars(th: bool) -> Vec<(Grammar, usize)> {
    let mut v: Vec<(Grammar, usize)> = vec![];
    for (i, (_, g)) in curated(false).into_iter().chain(curated(true)).enumerate() {
        if g.rules.len() <= 45 {
            let ways = if th { 8 } else { 2 };
            for k in 0..ways {
                v.push((g.clone(), i + k * 5 + 1));
            }
        }
    }
    for (i, x) in CONFLICTED.iter().enumerate() {
        let g = curated_src(x.1);
        v.push((reversed(&g), i + 3));
        v.push((g, i));
    }
    let u = gram::all_rules(2, 1, true, 2);
    let all = gram::all_grammars_if(&u, 3, 1, |g| g.defined() && g.reachable().len() == g.nts().len());
    let k = all.len().div_ceil(if th { 1200 } else { 160 });
    for (i, g) in all.into_iter().step_by(k).enumerate() {
        v.push((g, i));
    }
    let u = gram::all_rules(2, 2, false, 2);
    let all = gram::all_grammars_if(&u, 4, 3, |g| g.defined() && g.reachable().len() == g.nts().len() && Lr::new(g).conflicts.is_empty());
    let k = all.len().div_ceil(if th { 600 } else { 80 });
    for (i, g) in all.into_iter().step_by(k).enumerate() {
        v.push((g, i));
    }
    // every grammar of one nonterminal, one terminal and ERROR within a bound
    for (i, g) in gram::all_grammars(&gram::all_rules(1, 1, true, if th { 3 } else { 2 }), 2, 1).into_iter().enumerate() {
        v.push((g, i));
    }
    // sizes
    for err in [false, true] {
        let mut last = "";
        let mut n = 0;
        for (name, g) in gsizes(false, err) {
            n = if name == last { n + 1 } else { 0 };
            last = name;
            let r = g.rules.len();
            if [9, 17, 33, 34, 65, 66, 130, 257].iter().any(|x| r == *x || g.rules[0].1.len() == *x) && n % 2 == 0 && (r < 70 || th || name == "alternatives" || name == "unit chain") {
                v.push((g, n));
            }
        }
    }
    // confusable names: every token is an alternative of its own
    let k = QUOTED.len() + NAMED.len();
    for way in 0..4 {
        v.push((Grammar { start: 0, rules: [(0, vec![]), (0, vec![Sy::N(0), Sy::N(1)])].into_iter().chain((0..k).map(|i| (1, vec![Sy::T((i * 5 + way) % k)]))).collect() }, 1000 + way));
    }
    let k = NAMED.len();
    for way in 0..4 {
        v.push((Grammar { start: 0, rules: (1..k).map(|i| (0, vec![Sy::N((i * 5 + way) % (k - 1) + 1)])).chain((1..k).map(|i| (i, vec![Sy::T(i), Sy::T(0)]))).collect() }, 1000 + way));
    }
    // start symbol that is not the first one declared or used
    let mut g = curated_src(CURATED[0].1);
    let n: Vec<usize> = g.nts().into_iter().collect();
    for (i, s) in n.into_iter().enumerate() {
        g.start = s;
        v.push((g.clone(), i * 3));
        v.push((sparse(&g), i * 3 + 1));
    }
    v
}
/// names a careless comparison takes for one another
const QUOTED: [&str; 36] = ["a", "A", "aa", " a", "a ", "", " ", "\t", "\n", "\\n", "\"", "'", "0", "00", "\u{e9}", "e\u{301}", "E", "+", "++", "T0", "_", "ERROR", "<a>", "[a]", "\\", "\\\\", "\r\n", "\0", "a\0", "\u{df}", "SS", "ss", "::=", ":", "|", "token"];
const NAMED: [&str; 20] = ["a", "A", "aa", "_a", "a_", "T0", "t0", "T00", "token", "symbol", "start", "errortype", "LR1Parser", "ERROR", "error", "r#type", "\u{e9}", "String", "None", "SS"];
fn emit_par(th: bool) -> String {
    let gs = par_grammars(th);
    let mut o = String::from("#![allow(warnings)]\nuse mc::gram::{Fault, Node, Tok};\n");
    for (i, (g, way)) in gs.iter().enumerate() {
        let (nts, ts): (Vec<usize>, Vec<usize>) = (g.nts().into_iter().collect(), g.terms().into_iter().collect());
        // how each token is written: named, quoted, or quoted with the same text as a named one
        let tname = |t: usize| -> (String, String) {
            let p = ts.iter().position(|x| *x == t).unwrap();
            if *way >= 1000 {
                return match QUOTED.get(p) {
                    Some(q) if ts.len() > NAMED.len() => (format!("{q:?}"), format!("{q:?}")),
                    _ => {
                        let n = NAMED[if ts.len() > NAMED.len() { p - QUOTED.len() } else { p }];
                        (n.into(), format!("[{n}]"))
                    }
                };
            }
            match (way + p) % 4 {
                0 | 2 => (format!("T{p}"), format!("[T{p}]")),
                1 => (format!("\"T{}\"", p + 1), format!("\"T{}\"", p + 1)), // clashes with the named T{p+1}
                _ => {
                    let s = ["+", "::=", ":", ";", "|", "\\\"", "<A>", "ERROR", " ", "\\\\", "{", "}"][p % 12];
                    (format!("\"{s}{}\"", if p < 12 { String::new() } else { p.to_string() }), format!("\"{s}{}\"", if p < 12 { String::new() } else { p.to_string() }))
                }
            }
        };
        let nname = |n: usize| {
            let p = nts.iter().position(|x| *x == n).unwrap();
            if *way >= 1000 { NAMED[NAMED.len() - 1 - p].to_string() } else { format!("S{p}") }
        };
        let mut tdecl: Vec<String> = ts.iter().map(|t| format!("{} = k({t})", tname(*t).0)).collect();
        let mut sdecl: Vec<String> = nts.iter().map(|n| format!("{} = nt({n})", nname(*n))).collect();
        if tdecl.is_empty() {
            tdecl.push("Only = k(777777)".into()); // the macro needs at least one token
        }
        match way % 5 {
            1 => {
                tdecl.reverse();
                sdecl.reverse();
            }
            2 => {
                let n = tdecl.len();
                tdecl.rotate_left((n / 2).min(n));
                tdecl.insert(0, "Unused = k(555555)".into());
                sdecl.insert(0, "Spare = nt(444444)".into());
            }
            3 => {
                sdecl.reverse();
                tdecl.insert(tdecl.len() / 2, "\"unused\" = k(555555)".into());
                tdecl.push("Unused = k(333333)".into());
            }
            4 => {
                let n = sdecl.len();
                sdecl.rotate_left((n / 2).min(n));
                sdecl.insert(sdecl.len() / 2, "Spare = nt(444444)".into());
                tdecl.reverse();
            }
            _ => {}
        }
        let comma = if way % 2 == 0 { "," } else { "" };
        let vis = ["", "pub ", "pub(crate) "][way % 3];
        let end = |v: &Vec<String>| if v.is_empty() { String::new() } else { format!("{}{comma}", v.join(", ")) };
        let _ = write!(o, "mod m{i} {{\nuse super::*;\nparser_generator::parser! {{\n{vis}fn make() -> LR1Parser {{\ntoken {} {{ {} }}\nsymbol {} {{ {} }}\nerrortype {};\nstart {};\n", ["Tok", "mc::gram::Tok"][way % 2], end(&tdecl), ["mc::gram::Node", "Node"][way % 2], end(&sdecl), ["Fault", "mc::gram::Fault"][way / 2 % 2], nname(g.start));
        for (k, (l, rhs)) in g.rules.iter().enumerate() {
            let follow = k > 0 && g.rules[k - 1].0 == *l && (way / 2 + k) % 3 != 0;
            let head = if follow { "|".into() } else { format!("<{}> ::=", nname(*l)) };
            let r: Vec<String> = rhs.iter().map(|s| match s { Sy::N(n) => format!("<{}>", nname(*n)), Sy::T(t) => tname(*t).1, Sy::E => "ERROR".into() }).collect();
            let body = match (way + k) % 3 {
                0 => format!("list => mc::gram::reduce({k}, {l}, list)"),
                1 => format!("all => {{ let r = {k}; mc::gram::reduce(r, {l}, all) }}"),
                _ => format!("_ => mc::gram::reduce({k}, {l}, list)").replace("_ =>", "list if true =>").replace("list if true =>", "list @ [..] =>"),
            };
            let _ = writeln!(o, "{head} {} : {body};", r.join(" "));
        }
        let _ = write!(o, "}}\n}}\npub fn get() -> mc::gram::Real {{ make() }}\n}}\n");
    }
    let _ = write!(o, "{REAL}\nfn main() {{ mc::gen::par_main(&[{}], real::check); }}\n", (0..gs.len()).map(|i| format!("m{i}::get")).collect::<Vec<_>>().join(", "));
    o
}
/// An invocation over ordinary enums with payloads, and the same grammar built at run time.
const REAL: &str = r#"
mod real {
    use parser::enum_index_derive::*;
    use parser::{enum_index, LR1Parser, Parse, Rule, Symbol, Syntax};
    use parser::Symbol::{Error, NonTerminal, Terminal};
    #[derive(Debug, Clone, PartialEq, EnumIndex)]
    pub enum T { Skip, Num(f64), Id { name: String, at: usize }, Plus, Open(usize, char), Close, Semi }
    #[derive(Debug, PartialEq, EnumIndex)]
    pub enum N { Other, Expr(Vec<String>), Term { text: String }, List(usize, Option<String>), Stmt(String) }
    parser_generator::parser! {
        pub fn made() -> LR1Parser {
            token T { number = Num(0.0), ";" = Semi, "(" = Open(1, 'x'), ident = Id { name: String::new(), at: 9 }, ")" = Close, "+" = Plus }
            symbol N { stmt = Stmt(String::from("example")), expr = Expr(vec![]), list = List(0, None), term = Term { text: String::new() } }
            errortype String;
            start list;
            <list> ::= : [] => Ok(N::List(0, None));
                | <list> <stmt> : [NonTerminal(N::List(n, _)), NonTerminal(N::Stmt(s))] => Ok(N::List(*n + 1, Some(std::mem::take(s))));
            <stmt> ::= <expr> ";" : [NonTerminal(N::Expr(v)), Terminal(T::Semi)] => Ok(N::Stmt(v.join(",")));
                | ERROR ";" : [Error(e), _] => if e.len() > 3 { Err(format!("{} lost", e.len())) } else { Ok(N::Stmt(format!("{:?}", e))) };
            <expr> ::= <expr> "+" <term> : [NonTerminal(N::Expr(v)), .., NonTerminal(N::Term { text })] => { let mut w = v.clone(); w.push(std::mem::take(text)); Ok(N::Expr(w)) };
                | <term> : [NonTerminal(N::Term { text })] => Ok(N::Expr(vec![text.clone()]));
            <term> ::= [number] : [Terminal(T::Num(n))] => if *n < 0.0 { Err("negative".to_string()) } else { Ok(N::Term { text: n.to_string() }) };
            <term> ::= [ident] : [Terminal(T::Id { name, at })] => Ok(N::Term { text: format!("{}@{}", name, at) });
                | "(" <expr> ")" : [Terminal(T::Open(n, c)), NonTerminal(N::Expr(v)), _] => Ok(N::Term { text: format!("{}{}{:?}", c, n, v) });
                | "(" ERROR ")" : [_, Error(e), _] => Ok(N::Term { text: format!("{:?}", e) });
        }
    }
    fn built() -> LR1Parser<N, T, String> {
        let (num, id, open) = (|| Terminal(T::Num(7.5)), || Terminal(T::Id { name: "q".into(), at: 3 }), || Terminal(T::Open(0, 'y')));
        let (list, stmt, expr, term) = (|| N::List(5, None), || N::Stmt(String::new()), || N::Expr(vec!["z".into()]), || N::Term { text: "w".into() });
        LR1Parser::new(
            Syntax::builder()
                .rule(Rule::new(list(), &[], |l| match l { [] => Ok(N::List(0, None)), _ => panic!("rule 0") }))
                .rule(Rule::new(list(), &[NonTerminal(list()), NonTerminal(stmt())], |l| match l { [NonTerminal(N::List(n, _)), NonTerminal(N::Stmt(s))] => Ok(N::List(*n + 1, Some(std::mem::take(s)))), _ => panic!("rule 1") }))
                .rule(Rule::new(stmt(), &[NonTerminal(expr()), Terminal(T::Semi)], |l| match l { [NonTerminal(N::Expr(v)), Terminal(T::Semi)] => Ok(N::Stmt(v.join(","))), _ => panic!("rule 2") }))
                .rule(Rule::new(stmt(), &[Error(()), Terminal(T::Semi)], |l| match l { [Error(e), _] => if e.len() > 3 { Err(format!("{} lost", e.len())) } else { Ok(N::Stmt(format!("{:?}", e))) }, _ => panic!("rule 3") }))
                .rule(Rule::new(expr(), &[NonTerminal(expr()), Terminal(T::Plus), NonTerminal(term())], |l| match l { [NonTerminal(N::Expr(v)), .., NonTerminal(N::Term { text })] => { let mut w = v.clone(); w.push(std::mem::take(text)); Ok(N::Expr(w)) } _ => panic!("rule 4") }))
                .rule(Rule::new(expr(), &[NonTerminal(term())], |l| match l { [NonTerminal(N::Term { text })] => Ok(N::Expr(vec![text.clone()])), _ => panic!("rule 5") }))
                .rule(Rule::new(term(), &[num()], |l| match l { [Terminal(T::Num(n))] => if *n < 0.0 { Err("negative".to_string()) } else { Ok(N::Term { text: n.to_string() }) }, _ => panic!("rule 6") }))
                .rule(Rule::new(term(), &[id()], |l| match l { [Terminal(T::Id { name, at })] => Ok(N::Term { text: format!("{}@{}", name, at) }), _ => panic!("rule 7") }))
                .rule(Rule::new(term(), &[open(), NonTerminal(expr()), Terminal(T::Close)], |l| match l { [Terminal(T::Open(n, c)), NonTerminal(N::Expr(v)), _] => Ok(N::Term { text: format!("{}{}{:?}", c, n, v) }), _ => panic!("rule 8") }))
                .rule(Rule::new(term(), &[open(), Error(()), Terminal(T::Close)], |l| match l { [_, Error(e), _] => Ok(N::Term { text: format!("{:?}", e) }), _ => panic!("rule 9") }))
                .build(list()),
        )
        .0
    }
    pub fn check(len: usize) -> Result<u64, (String, String)> {
        let (m, b) = (made(), built());
        let tok = |k: usize, i: usize| match k { 0 => T::Num(i as f64), 1 => T::Plus, 2 => T::Open(i, '('), 3 => T::Close, 4 => T::Semi, 5 => T::Id { name: format!("v{}", i), at: i }, 6 => T::Num(-1.0), _ => T::Skip };
        let ws = mc::gram::words(&[0, 1, 2, 3, 4, 5, 6, 7], len);
        for w in &ws {
            let t = || w.iter().enumerate().map(|(i, k)| tok(*k, i)).collect::<Vec<_>>();
            let x = mc::util::guard(|| format!("{:?}", t().parse(&m)));
            let y = mc::util::guard(|| format!("{:?}", t().parse(&b)));
            if x != y {
                return Err((format!("{:?}", t()), format!("parser! gives {:?}, the run-time builder {:?}", x, y)));
            }
        }
        Ok(ws.len() as u64)
    }
}
"#;
type RealCheck = fn(usize) -> Result<u64, (String, String)>;
pub fn par_main(made: &[fn() -> gram::Real], real: RealCheck) {
    let tier = std::env::args().nth(1).unwrap_or_else(|| "quick".into());
    init("C19", &tier);
    let mut run = Run::new("C19", &tier);
    let th = run.thorough();
    let gs = par_grammars(th);
    assert_eq!(gs.len(), made.len(), "generated crate is out of date");
    run.bound("parser! invocations", gs.len());
    run.bound("inputs per invocation", "all words over the grammar's tokens and an unknown one up to a length, all viable prefixes within a budget with all single edits, pumped inputs");
    run.par("macro invocations", gs.len(), |i, st| {
        let g = &gs[i].0;
        let lr = Lr::new(g);
        st.add("states", lr.states() as u64);
        st.add("transitions", lr.transitions);
        let (rt, _) = gram::build(g)?;
        let gen = match guard(made[i]) {
            Ok(p) => p,
            Err(e) => return bad(format!("the generated function panicked: {e}"), json!({"grammar": g.json(), "invocation": i})),
        };
        let mut al: Vec<usize> = g.terms().into_iter().take(6).collect();
        al.push(999_983);
        let mut n = 1;
        while al.len().pow(n as u32 + 1) < if th { 20_000 } else { 3000 } && n < 8 {
            n += 1;
        }
        let mut ws = gram::words(&al, n);
        if lr.conflicts.is_empty() {
            ws.extend(edits(&lr, if th { 1500 } else { 200 }, if th { 20_000 } else { 1000 }));
            ws.extend(pumped(&lr, &[3, 30]).into_iter().take(400));
            ws.extend(state_cover(&lr, if th { 20 } else { 4 }));
        }
        for w in &ws {
            let want = lr.run(w);
            if want.out == Out::Loop {
                continue; // a conflicting grammar on which the strategy does not terminate
            }
            set_input(&format!("{w:?}"));
            let a = gram::run(&gen, w, usize::MAX);
            let b = gram::run(&rt, w, usize::MAX);
            st.add("traces_validated_against_impl", 2);
            st.add("reducer_calls_compared", b.calls.len() as u64);
            if a != b {
                return bad(format!("parser! gives {:?} after {} tokens with calls {:?}; the run-time builder gives {:?} after {} tokens with calls {:?}", a.out, a.pulls, a.calls, b.out, b.pulls, b.calls), json!({"grammar": g.json(), "input": w, "invocation": i, "way": gs[i].1}));
            }
        }
        st.add("invocations", 1);
        st.sample(60, "invocations", || json!({"grammar": g.show(), "inputs": ws.len()}));
        Ok(())
    });
    let len = if th { 6 } else { 5 };
    run.bound("ordinary enums with payloads", json!({"inputs": "all words over 8 token values", "length": len}));
    run.par("ordinary enums with payloads", 1, |_, st| match real(len) {
        Ok(n) => {
            st.add("traces_validated_against_impl", 2 * n);
            st.add("invocations", 1);
            Ok(())
        }
        Err((input, why)) => bad(why, json!({"grammar": "module real of gen/par", "input": input})),
    });
    run.finish("model_checking")
}

// ------------------------------------------------------------------ C27: invalid invocations
/// (what, source, valid)
fn invocations(th: bool) -> Vec<(String, String, bool)> {
    let mut v: Vec<(String, String, bool)> = vec![];
    // tokenizer!
    let tok = |head: &str, pats: &[String]| {
        let rules: String = pats.iter().enumerate().map(|(i, p)| format!("{p:?}: |s, _| ({i}, s.to_string());\n")).collect();
        format!("#![allow(warnings)]\ntokenizer_generator::tokenizer! {{\npub fn {head} -> DFATokenizer {{\ncharacter char;\ntoken (usize, String);\n{rules}}}\n}}\n")
    };
    let list = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let meta: Vec<char> = "a\\.+*?()|[]{}^$-,2".chars().collect();
    let mut bads: Vec<String> = all_strings(&meta, 2).into_iter().map(|s| s.into_iter().collect::<String>()).collect();
    for f in ["\\b", "\\B", "\\A", "\\z", "(?m:^)", "(?m:$)", "(?-u:\\xff)", "\\p{nope}", "[b-a]", "[[:nope:]]", "{2}", "(?=a)", "\\1", "a{3,1}", "\\u{110000}", "(?-u:\\b)"] {
        for c in ["{}", "a{}", "({})", "(a|{})", "({})*", "({}){0}", "x({})?y"] {
            bads.push(c.replace("{}", f));
        }
    }
    bads.retain(|p| crate::tokc::expect(p) != Ok(true));
    let n = bads.len();
    for (i, p) in bads.into_iter().enumerate() {
        if th || i < n && (i % 3 == 0 || p.len() < 2) {
            v.push((format!("the only pattern is {p:?}"), tok("make()", &[p.clone()]), false));
        }
        if th || i % 7 == 0 {
            for at in 0..3 {
                let mut l = list(&["ab", "[0-9]+", "c|d"]);
                l[at] = p.clone();
                v.push((format!("pattern {at} of three is {p:?}"), tok("make()", &l), false));
            }
        }
    }
    v.push(("three patterns".into(), tok("make()", &list(&["ab", "[0-9]+", "c|d"])), true));
    v.push(("one pattern".into(), tok("make()", &list(&["a"])), true));
    for h in ["make(x: u8)", "make(self)", "make(_: (), _: ())"] {
        v.push((format!("the head is {h}"), tok(h, &list(&["a"])), false));
    }
    // parser!
    #[derive(Clone)]
    struct G {
        head: String,
        start: String,
        rules: Vec<(String, Vec<String>)>,
    }
    let text = |g: &G| {
        let rules: String = g.rules.iter().map(|(k, r)| format!("{k} {} : _ => Ok(Nt(0));\n", r.join(" "))).collect();
        format!("#![allow(warnings)]\npub struct Tk(usize);\npub struct Nt(usize);\nimpl parser::enum_index::EnumIndex for Tk {{ fn enum_index(&self) -> usize {{ self.0 }} }}\nimpl parser::enum_index::EnumIndex for Nt {{ fn enum_index(&self) -> usize {{ self.0 }} }}\nimpl Tk {{ fn k(n: usize) -> Tk {{ Tk(n) }} }}\nimpl Nt {{ fn n(n: usize) -> Nt {{ Nt(n) }} }}\nparser_generator::parser! {{\npub fn {} -> LR1Parser {{\ntoken Tk {{ A = k(0), \"b\" = k(1), B = k(2), \"=\" = k(3), Cc = k(4) }}\nsymbol Nt {{ S = n(0), T = n(1), U = n(2) }}\nerrortype String;\nstart {};\n{rules}}}\n}}\n", g.head, g.start)
    };
    let l = |k: &str, r: &[&str]| (k.to_string(), r.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    let g = G { head: "make()".into(), start: "S".into(), rules: vec![l("<S> ::=", &["<T>", "[A]"]), l("|", &["<S>", "\"b\"", "<U>"]), l("<T> ::=", &["[B]", "[Cc]"]), l("|", &[]), l("<U> ::=", &["ERROR", "\"=\""])] };
    v.push(("the grammar".into(), text(&g), true));
    for s in ["T", "U"] {
        v.push((format!("start {s}"), text(&G { start: s.into(), ..g.clone() }), true));
    }
    let bad = ["[C]", "[a]", "[b]", "[S]", "[ERROR]", "[AA]", "\"A\"", "\"B\"", "\"c\"", "\"b \"", "\" b\"", "\"bb\"", "\"\"", "\"==\"", "\"S\"", "\"ERROR\"", "<X>", "<s>", "<A>", "<B>", "<Cc>", "<SS>", "<ERROR>"];
    for r in 0..g.rules.len() {
        let len = g.rules[r].1.len();
        for at in 0..=len {
            for (i, b) in bad.iter().enumerate() {
                if at < len {
                    let mut h = g.clone();
                    h.rules[r].1[at] = b.to_string();
                    v.push((format!("symbol {at} of rule {r} is {b}"), text(&h), false));
                }
                if th || (i + at + r) % 4 == 0 || len == 0 {
                    let mut h = g.clone();
                    h.rules[r].1.insert(at, b.to_string());
                    v.push((format!("{b} is inserted at {at} in rule {r}"), text(&h), false));
                }
            }
        }
        for b in ["<X> ::=", "<A> ::=", "<s> ::=", "<SS> ::=", "<ERROR> ::="] {
            let mut h = g.clone();
            h.rules[r].0 = b.into();
            v.push((format!("rule {r} begins with {b}"), text(&h), false));
            let mut h = g.clone();
            h.rules.insert(r, l(b, &["[A]"]));
            v.push((format!("a rule of {b} in front of rule {r}"), text(&h), false));
        }
    }
    for s in ["X", "A", "B", "s", "SS", "ERROR"] {
        v.push((format!("start {s}"), text(&G { start: s.into(), ..g.clone() }), false));
    }
    for h in ["make(x: u8)", "make(_: (), _: ())"] {
        v.push((format!("the head is {h}"), text(&G { head: h.into(), ..g.clone() }), false));
    }
    let mut h = g.clone();
    h.rules[0].0 = "|".into();
    v.push(("the first rule begins with |".into(), text(&h), false));
    v
}
/// `externs`: arguments for rustc that name the four crates
pub fn c27(run: &mut Run, externs: &[String]) {
    let all = invocations(run.thorough());
    let dir = format!("{}/target/invalid", verif_dir());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("mkdir");
    run.bound("invocations", json!({"invalid": all.iter().filter(|c| !c.2).count(), "valid": all.iter().filter(|c| c.2).count()}));
    run.par("invocations", all.len(), |i, st| {
        let (what, src, valid) = &all[i];
        let f = format!("{dir}/i{i}.rs");
        std::fs::write(&f, src).expect("write");
        let out = std::process::Command::new("rustc").args(["--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--crate-name", "i", "-o", &format!("{dir}/i{i}.rmeta"), &f]).args(externs).output().expect("rustc");
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        let _ = std::fs::remove_file(format!("{dir}/i{i}.rmeta"));
        let _ = std::fs::remove_file(&f);
        if err.contains("can't find crate") || out.status.code().is_none() {
            eprintln!("no answer from the compiler: {err}");
            std::process::exit(3);
        }
        st.add("states", 1);
        st.add("transitions", 1);
        st.add("traces_validated_against_impl", 1);
        st.add(if *valid { "valid_invocations" } else { "invalid_invocations" }, 1);
        if out.status.success() != *valid {
            let e: Vec<&str> = err.lines().filter(|l| l.starts_with("error")).collect();
            return bad(if *valid { format!("a valid invocation does not compile ({what}): {e:?}") } else { format!("an invalid invocation compiles: {what}") }, json!({"what": what, "source": src}));
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
}
