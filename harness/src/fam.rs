//! The bounded families of pattern lists, inputs and grammars the checks enumerate completely.
use crate::gram::{all_grammars, all_rules, words, Act, Grammar, Lr, Sy};
use crate::rx::*;
use std::collections::{BTreeSet, HashSet};

// ------------------------------------------------------------------ pattern lists
pub struct Pats {
    pub re: Vec<Re>,
    pub strs: Vec<String>,
}
impl Pats {
    pub fn of(re: Vec<Re>) -> Pats {
        let strs = re.iter().map(|r| r.pattern()).collect();
        Pats { re, strs }
    }
    /// concrete syntax in, reference AST through regex-syntax
    pub fn syn(s: &[&str]) -> Pats {
        Pats { re: s.iter().map(|x| from_syntax(x)).collect(), strs: s.iter().map(|x| x.to_string()).collect() }
    }
}
pub struct Family {
    pub name: &'static str,
    pub lists: Vec<Pats>,
    /// alphabet for exhaustive inputs; empty: use coverage inputs
    pub alpha: Vec<char>,
    pub len: usize,
    /// how many coverage inputs are extended by further tokens
    pub cap: usize,
}

pub const UNARY18: [(u32, Option<u32>, &str); 18] = [
    (0, Some(1), "?"),
    (0, None, "*"),
    (1, None, "+"),
    (0, Some(0), "{0}"),
    (1, Some(1), "{1}"),
    (2, Some(2), "{2}"),
    (3, Some(3), "{3}"),
    (0, None, "{0,}"),
    (1, None, "{1,}"),
    (2, None, "{2,}"),
    (3, None, "{3,}"),
    (0, Some(1), "{0,1}"),
    (0, Some(2), "{0,2}"),
    (0, Some(3), "{0,3}"),
    (1, Some(1), "{1,1}"),
    (1, Some(2), "{1,2}"),
    (1, Some(3), "{1,3}"),
    (2, Some(3), "{2,3}"),
];
pub const UNARY8: [(u32, Option<u32>, &str); 8] = [(0, Some(1), "?"), (0, None, "*"), (1, None, "+"), (2, Some(2), "{2}"), (2, None, "{2,}"), (0, Some(2), "{0,2}"), (1, Some(2), "{1,2}"), (2, Some(3), "{2,3}")];
pub const UNARY5: [(u32, Option<u32>, &str); 5] = [(0, Some(1), "?"), (0, None, "*"), (1, None, "+"), (2, None, "{2,}"), (1, Some(2), "{1,2}")];

fn ab() -> [Re; 2] {
    [ch('a'), ch('b')]
}
pub fn singles(un: &[(u32, Option<u32>, &str)], size: usize) -> Vec<Pats> {
    enumerate(&ab(), un, size).into_iter().flatten().map(|r| Pats::of(vec![r])).collect()
}
pub fn pairs(un: &[(u32, Option<u32>, &str)], size: usize) -> Vec<Pats> {
    let all: Vec<Re> = enumerate(&ab(), un, size).into_iter().flatten().collect();
    let mut v = vec![];
    for x in &all {
        for y in &all {
            v.push(Pats::of(vec![x.clone(), y.clone()]));
        }
    }
    v
}
pub fn triples(un: &[(u32, Option<u32>, &str)], size: usize) -> Vec<Pats> {
    let all: Vec<Re> = enumerate(&ab(), un, size).into_iter().flatten().collect();
    let mut v = vec![];
    for x in &all {
        for y in &all {
            for z in &all {
                v.push(Pats::of(vec![x.clone(), y.clone(), z.clone()]));
            }
        }
    }
    v
}
fn intervals() -> Vec<Re> {
    let p: Vec<char> = ('a'..='f').collect();
    let mut v = vec![];
    for i in 0..p.len() {
        for j in i..p.len() {
            v.push(if i == j { ch(p[i]) } else { rng(p[i], p[j]) });
        }
    }
    v
}
/// all lists of 1..=3 interval classes over six letters, and x[..]|y[..]|z[..] as one pattern
pub fn ranges(thorough: bool) -> Vec<Pats> {
    let iv = intervals();
    let mut v = vec![];
    for a in &iv {
        v.push(Pats::of(vec![a.clone()]));
        for b in &iv {
            v.push(Pats::of(vec![a.clone(), b.clone()]));
            v.push(Pats::of(vec![alts(vec![cat(ch('x'), a.clone()), cat(ch('y'), b.clone())])]));
            v.push(Pats::of(vec![alt(a.clone(), cat(b.clone(), ch('x')))]));
            for c in &iv {
                v.push(Pats::of(vec![a.clone(), b.clone(), c.clone()]));
                if thorough || (a.size() + b.size() > 0 && a <= b) {
                    v.push(Pats::of(vec![alts(vec![cat(ch('x'), a.clone()), cat(ch('y'), b.clone()), cat(ch('z'), c.clone())])]));
                }
            }
        }
    }
    // classes that are arbitrary subsets of a..f, in pairs; thorough: also inside a repetition
    let sub: Vec<Re> = (1u32..64)
        .map(|m| {
            let cs: Vec<char> = (0..6).filter(|i| m >> i & 1 == 1).map(|i| (b'a' + i as u8) as char).collect();
            let mut rs: Vec<(u32, u32)> = vec![];
            for c in &cs {
                match rs.last_mut() {
                    Some(l) if l.1 == *c as u32 => l.1 += 1,
                    _ => rs.push((*c as u32, *c as u32 + 1)),
                }
            }
            set(&rs, &format!("[{}]", cs.iter().collect::<String>()))
        })
        .collect();
    for a in &sub {
        v.push(Pats::of(vec![plus(a.clone())]));
        for b in &sub {
            v.push(Pats::of(vec![a.clone(), b.clone()]));
            if thorough {
                v.push(Pats::of(vec![plus(a.clone()), cat(b.clone(), ch('x'))]));
                v.push(Pats::of(vec![cat(star(a.clone()), b.clone())]));
            }
        }
    }
    v
}
pub const POINTS: [char; 14] = ['\0', '\u{1}', '\n', '\u{7f}', '\u{80}', '\u{ff}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10fffe}', '\u{10ffff}'];
fn esc(c: char) -> String {
    format!("\\u{{{:x}}}", c as u32)
}
/// literals, ranges and negated ranges between critical code points; singles and pairs
pub fn points() -> Vec<Pats> {
    let mut leaves = vec![];
    for (i, &p) in POINTS.iter().enumerate() {
        leaves.push(ch(p));
        leaves.push(leaf(&format!("[^{}]", esc(p))));
        for &q in &POINTS[i + 1..] {
            leaves.push(leaf(&format!("[{}-{}]", esc(p), esc(q))));
            if (p, q) != ('\0', '\u{10ffff}') {
                leaves.push(leaf(&format!("[^{}-{}]", esc(p), esc(q))));
            }
        }
    }
    let mut v = vec![];
    for a in &leaves {
        v.push(Pats::of(vec![a.clone()]));
        v.push(Pats::of(vec![plus(a.clone()), ch('q')]));
        for b in leaves.iter().step_by(3) {
            v.push(Pats::of(vec![a.clone(), b.clone()]));
        }
    }
    v
}
pub const SHORTHANDS: [&str; 42] = [
    ".", "(?s:.)", "\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\pL", "\\PL", "\\p{Greek}", "[[:alpha:]]", "[[:^digit:]]", "[^a]", "[^a-z0-9]", "(?i:k)", "(?i:[a-c])", "[a-cx-z]", "[a-z&&[^m]]", "[\\d_]", "[^\\s]", "\\x41", "\\t", "\\n", "[\\]\\[]", "[a\\-z]", "[\\u{3b1}-\\u{3c9}]", "\\u{1f600}",
    "[^\\n]", "\\.", "\\\\", "[0-9A-Fa-f]", "[+\\-*/]", "\\x7F", "[\\x00-\\x1f]", "\\pN", "\\p{Lu}", "[~--]", "(?x: a )", "[[:punct:]]", "[^[:ascii:]]", "(?i:\u{df})",
];
pub fn shorthands(thorough: bool) -> Vec<Pats> {
    let l: Vec<Re> = SHORTHANDS.iter().filter(|s| regex_syntax::Parser::new().parse(s).is_ok()).filter(|s| **s != "[~--]").map(|s| leaf(s)).collect();
    let mut v = vec![];
    for a in &l {
        v.push(Pats::of(vec![a.clone()]));
        v.push(Pats::of(vec![plus(a.clone())]));
        v.push(Pats::of(vec![cat(a.clone(), ch('a'))]));
    }
    for (i, a) in l.iter().enumerate() {
        for (j, b) in l.iter().enumerate() {
            if thorough || (i + j) % 3 == 0 {
                v.push(Pats::of(vec![a.clone(), b.clone()]));
            }
        }
    }
    v
}
pub fn counted_family(max: u32) -> Vec<Pats> {
    let bodies = [ch('a'), word("ab"), alt(ch('a'), ch('b')), alt(ch('a'), word("ab")), plus(ch('a')), opt(ch('a')), star(word("ab")), cat(opt(ch('a')), opt(ch('b'))), cat(plus(ch('a')), ch('b'))];
    let mut v = vec![];
    for b in &bodies {
        for n in 0..=max {
            v.push(Pats::of(vec![counted(b.clone(), n, None)]));
            v.push(Pats::of(vec![counted(b.clone(), n, Some(None))]));
            v.push(Pats::of(vec![cat(ch('x'), cat(counted(b.clone(), n, Some(None)), ch('y')))]));
            for m in n..=max {
                v.push(Pats::of(vec![counted(b.clone(), n, Some(Some(m)))]));
                if n <= 3 {
                    v.push(Pats::of(vec![cat(counted(b.clone(), n, Some(Some(m))), ch('b'))]));
                    v.push(Pats::of(vec![cat(ch('b'), counted(b.clone(), n, Some(Some(m))))]));
                }
            }
        }
    }
    // big counts
    for n in [16, 31, 32, 33, 63, 64, 65, 100] {
        v.push(Pats::of(vec![counted(ch('a'), n, None)]));
        v.push(Pats::of(vec![counted(ch('a'), n, Some(None))]));
        v.push(Pats::of(vec![counted(ch('a'), 0, Some(Some(n)))]));
        v.push(Pats::of(vec![counted(ch('a'), n, Some(Some(n + 3)))]));
        v.push(Pats::of(vec![counted(word("ab"), n, None), ch('a')]));
    }
    v
}
/// Sizes around and between powers of two, for implementations that treat small and large things differently.
pub fn sizes(max: u32) -> Vec<u32> {
    [9, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 40, 48, 50, 63, 64, 65, 66, 80, 96, 99, 100, 101, 127, 128, 129, 130, 150, 200, 250, 254, 255, 256, 257, 258, 300, 400, 500, 511, 512, 513, 600, 700, 800, 1000, 1022, 1023, 1024, 1025, 1026, 1100].into_iter().filter(|n| *n <= max).collect()
}
/// Counted repetitions with every kind of bounds, literals, alternations, classes, nestings and lists of
/// every one of those sizes.
pub fn big(thorough: bool) -> Vec<Pats> {
    let small = [ch('a'), word("ab"), alt(ch('a'), ch('b')), alt(ch('a'), word("ab")), opt(ch('a')), rng('a', 'c'), cat(ch('a'), opt(ch('b'))), plus(ch('b'))];
    let mut v = vec![];
    for n in sizes(if thorough { 1100 } else { 600 }) {
        let bodies = if n <= if thorough { 130 } else { 66 } { &small[..] } else if n <= 300 { &small[..3] } else { &small[..1] };
        for b in bodies {
            let mut kinds = vec![(n, None), (n, Some(None)), (0, Some(Some(n))), (1, Some(Some(n)))];
            if n <= 300 {
                kinds.extend([(2, Some(Some(n))), (3, Some(Some(n))), (n / 2, Some(Some(n))), (n - 1, Some(Some(n))), (n, Some(Some(n + 1))), (n, Some(Some(n + 20)))]);
            }
            for (lo, hi) in kinds {
                let c = counted(b.clone(), lo, hi);
                v.push(Pats::of(vec![c.clone()]));
                if n <= 130 {
                    v.push(Pats::of(vec![cat(ch('x'), cat(c.clone(), ch('y')))]));
                    v.push(Pats::of(vec![c.clone(), ch('a'), c]));
                }
            }
        }
        let s = |k: u32| char::from_u32(0x4e00 + k).unwrap();
        v.push(Pats::of(vec![word(&(0..n).map(|i| if i % 3 == 0 { 'a' } else { 'b' }).collect::<String>())]));
        v.push(Pats::of(vec![alts((0..n).map(|k| cat(ch(s(k)), ch(s(n - k)))).collect()), plus(ch('a'))]));
        v.push(Pats::of(vec![plus(set(&(0..n).map(|k| (s(2 * k) as u32, s(2 * k) as u32 + 1)).collect::<Vec<_>>(), &format!("[{}]", (0..n).map(|k| s(2 * k)).collect::<String>()))), rng(s(3), s(9))]));
        if n <= 300 {
            v.push(Pats::of((0..n).map(|k| cat(ch(s(k)), ch('z'))).chain([plus(rng(s(0), s(n)))]).collect()));
            v.push(Pats::of((0..n).map(|k| if k % 5 == 4 { ch(s(k / 2)) } else { cat(ch(s(k)), opt(ch('z'))) }).collect()));
        }
        if n < 100 {
            let mut r = ch('a');
            for k in 0..n {
                r = match k % 4 { 0 => cat(ch('b'), r), 1 => opt(r), 2 => cat(r, ch('c')), _ => alt(ch('d'), r) };
            }
            v.push(Pats::of(vec![r]));
        }
    }
    v
}
pub const LISTS: [&[&str]; 16] = [
    &["([0-9]+|[0-9]+\\.[0-9]*|[0-9]*\\.[0-9]+)([eE][\\+\\-]?[0-9]+)?", "\\+", "\\-", "\\*", "/", "\\(", "\\)", "sqrt", ".|\n"],
    &["[a-zA-Z_][a-zA-Z0-9_]*", "0([xX][0-9a-fA-F]+|[dD][0-9]+|[oO][0-7]+|[bB][01]+)|[1-9][0-9]*|0", ".|\n"],
    &["if", "else", "while", "for", "fn", "return", "[a-z]+", "[0-9]+", "==", "=", "<=", "<", "[ \t\n]+", "//[^\n]*\n", "\"([^\"\\\\]|\\\\.)*\""],
    &["[ \t\r\n]+", "\\{", "\\}", "\\[", "\\]", ":", ",", "true", "false", "null", "-?(0|[1-9][0-9]*)(\\.[0-9]+)?([eE][+-]?[0-9]+)?", "\"([^\"\\\\\\x00-\\x1f]|\\\\([\"\\\\/bfnrt]|u[0-9a-fA-F]{4}))*\""],
    &["/\\*([^*]|\\*+[^*/])*\\*+/", "/", "\\*", "[a-z]"],
    &["a", "ab", "abc", "abcd", "abcde", "b", "cd", "e"],
    &["a*b", "a", "b*c", "b", "c"],
    &["(a|b)*abb", "a", "b"],
    &["a{50}", "a"],
    &["<!--([^-]|-[^-])*-->", "<[a-z]+", "</[a-z]+>", ">", "[^<>]+", "."],
    &["[0-9]{4}-[0-9]{2}-[0-9]{2}", "[0-9]+", "-", "[0-9]{2}:[0-9]{2}"],
    &["\\.\\.\\.", "\\.\\.=", "\\.\\.", "\\.", "[0-9]+(\\.[0-9]+)?"],
    &["(?i:select|from|where)", "[a-zA-Z]+", "\\s+", ","],
    &["\\p{Greek}+", "[a-z]+", "\\s"],
    &["a|aa", "aaa", "aaaa?", "a{5}"],
    &["x?y", "xx*", "(xy)+z", "y+"],
];
pub fn realistic() -> Vec<Pats> {
    let mut v: Vec<Pats> = LISTS.iter().map(|l| Pats::syn(l)).collect();
    // every cyclic rotation and the reversal: priority depends on the order
    for l in LISTS {
        for k in 1..l.len() {
            let mut m = l.to_vec();
            m.rotate_left(k);
            v.push(Pats::syn(&m));
        }
        let mut m = l.to_vec();
        m.reverse();
        v.push(Pats::syn(&m));
    }
    // many patterns: keyword tables of 2..=40, and one with 300 entries
    let kw: Vec<String> = (0..300u32).map(|i| { let mut s = String::new(); let mut k = i + 1; while k > 0 { s.push((b'a' + (k % 5) as u8) as char); k /= 5; } s.push('k'); s }).collect();
    for n in [2usize, 3, 5, 8, 9, 16, 17, 33, 40, 65, 130, 300] {
        let mut l: Vec<&str> = kw[..n].iter().map(|s| s.as_str()).collect();
        l.push("[a-z]+");
        v.push(Pats::syn(&l));
        l.pop();
        l.insert(0, "[a-z]");
        v.push(Pats::syn(&l));
    }
    v
}

/// Access string of every reference state.
pub fn access(r: &RefDfa) -> Vec<Vec<char>> {
    let mut acc: Vec<Option<Vec<char>>> = vec![None; r.next.len()];
    acc[START] = Some(vec![]);
    let mut q = std::collections::VecDeque::from([START]);
    while let Some(s) = q.pop_front() {
        for (i, &t) in r.next[s].iter().enumerate() {
            if acc[t].is_none() && r.live[t] {
                if let Some(c) = rep_of(r.cuts[i], r.cuts[i + 1]) {
                    let mut w = acc[s].clone().unwrap();
                    w.push(c);
                    acc[t] = Some(w);
                    q.push_back(t);
                }
            }
        }
    }
    acc.into_iter().flatten().collect()
}
fn rep_of(lo: u32, hi: u32) -> Option<char> {
    "aexyz019 ".chars().find(|c| (*c as u32) >= lo && (*c as u32) < hi).or_else(|| (lo..hi).find_map(char::from_u32))
}
/// Inputs that take the tokenizer through every live state, from there over every character
/// class (both ends of it), and on into a further token: access(s)·c·access(t).
pub fn cover(r: &RefDfa, cap: usize) -> Vec<Vec<char>> {
    let acc = access(r);
    // one representative per class of intervals that behave alike everywhere, plus both ends of
    // every interval from the start state
    let mut seen: HashSet<Vec<usize>> = HashSet::new();
    let mut reps: Vec<char> = vec![];
    for i in 0..r.cuts.len() - 1 {
        let col: Vec<usize> = r.next.iter().map(|row| row[i]).collect();
        if seen.insert(col) {
            if let Some(c) = rep_of(r.cuts[i], r.cuts[i + 1]) {
                reps.push(c);
            }
        }
    }
    let mut out: BTreeSet<Vec<char>> = BTreeSet::new();
    for c in r.reps(true) {
        out.insert(vec![c]);
        out.insert(vec![reps[0], c, reps[reps.len() - 1]]);
    }
    for s in &acc {
        out.insert(s.clone());
        for &c in &reps {
            let mut w = s.clone();
            w.push(c);
            out.insert(w.clone());
            if out.len() < cap {
                for &d in &reps {
                    let mut x = w.clone();
                    x.push(d);
                    out.insert(x);
                }
            }
        }
    }
    for s in &acc {
        for t in &acc {
            if out.len() >= 2 * cap {
                break;
            }
            let mut w = s.clone();
            w.extend(t);
            out.insert(w.clone());
            for &c in &reps {
                let mut x = s.clone();
                x.push(c);
                x.extend(t);
                out.insert(x);
            }
        }
    }
    out.into_iter().collect()
}

/// characters some code or other treats in a way of its own, and what they combine with
pub const SPECIAL: [char; 16] = ['\r', '\n', '\t', ' ', '\0', '\u{b}', 'a', 'e', '\u{301}', '\u{e9}', '\u{feff}', '\u{200d}', '\u{2028}', '\u{1f1e6}', '\u{130}', '\u{fffd}'];
fn special() -> Vec<Pats> {
    [&["(?s:.)"][..], &["(?s:.)+"], &["(?s:.){2}", "(?s:.)"], &["\\s+", "[^\\s]+"], &["\\s+", "[a-z]+", "."], &["\\r\\n", "\\n", "[^\\n]"], &["\\r\\n|\\r|\\n", "[^\\r\\n]+"], &["a", "e\u{301}", "\u{e9}", "(?s:.)"]].iter().map(|l| Pats::syn(l)).collect()
}
/// Families used by the checks of the token stream (C01, C03, C04, C05).
pub fn stream_families(thorough: bool) -> Vec<Family> {
    let abx = vec!['a', 'b', 'x'];
    vec![
        Family { name: "single patterns, <=4 nodes", lists: singles(if thorough { &UNARY18 } else { &UNARY8 }, 4), alpha: abx.clone(), len: if thorough { 7 } else { 5 }, cap: 1500 },
        Family { name: "ordered pairs of patterns of <=3 nodes", lists: pairs(if thorough { &UNARY18 } else { &UNARY8 }, 3), alpha: abx.clone(), len: if thorough { 5 } else { 5 }, cap: 1500 },
        Family { name: "ordered triples of patterns of <=2 nodes", lists: triples(if thorough { &UNARY18 } else { &UNARY8 }, 2), alpha: abx.clone(), len: if thorough { 6 } else { 4 }, cap: 1500 },
        Family { name: "range classes over six letters", lists: ranges(thorough), alpha: vec![], len: 0, cap: 1500 },
        Family { name: "critical code points", lists: points(), alpha: vec![], len: 0, cap: 1500 },
        Family { name: "class shorthands", lists: shorthands(thorough), alpha: vec![], len: 0, cap: 1500 },
        Family { name: "counted repetitions", lists: counted_family(if thorough { 12 } else { 8 }), alpha: vec![], len: 0, cap: 1500 },
        Family { name: "realistic lists", lists: realistic(), alpha: vec![], len: 0, cap: 1500 },
        Family { name: "line ends, spaces, combining and other special characters", lists: special(), alpha: SPECIAL.to_vec(), len: if thorough { 4 } else { 3 }, cap: 1500 },
        Family { name: "sizes around powers of two and above", lists: big(thorough), alpha: vec![], len: 0, cap: 60 },
    ]
}

/// (patterns, prefix, pumped, suffix): inputs prefix·pumped^n·suffix
pub const PUMPS: [(&[&str], &str, &str, &str); 12] = [
    (&["a*b", "a"], "", "a", ""),
    (&["a*b", "a"], "", "a", "b"),
    (&["a*b", "a"], "", "a", "xa"),
    (&["x(a)*y", ".", "x"], "x", "a", ""),
    (&["x[a-z]*!", "x", "[a-z]"], "x", "q", "?"),
    (&["(ab)*c", "a", "b"], "", "ab", "a"),
    (&["[a-z]+", "[a-z]+\\(", "\\("], "", "f", "((f"),
    (&["\"[^\"]*\"", "\"", "[a-z]"], "\"", "z", ""),
    (&["a{50}", "a"], "", "a", ""),
    (&["a+", "b"], "", "a", "b"),
    (&["a", "b", "."], "", "ab", "c"),
    (&["(a|b)*c", "a", "b"], "", "ab", "cab"),
];
pub fn pump_lengths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 300 } else { 70 }).collect();
    for p in [64usize, 100, 128, 256, 300, 512, 1000, 1024] {
        v.extend([p - 1, p, p + 1]);
    }
    if thorough {
        v.extend([2047, 2048, 2049, 4095, 4096, 4097]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
/// pumps whose tokenization is linear, for very long inputs
pub const LINEAR: [(&[&str], &str, &str, &str); 4] = [(&["x(a)*y", ".", "x"], "x", "a", ""), (&["\"[^\"]*\"", "\"", "[a-z]"], "\"", "z", ""), (&["a+", "b"], "", "a", "b"), (&["a", "b", "."], "", "ab", "c")];

// ------------------------------------------------------------------ grammars
pub struct GFam {
    pub name: &'static str,
    pub gs: Vec<Grammar>,
    pub words: Vec<Vec<usize>>,
}
/// every grammar (set of rules in a fixed order) within a size bound, every word within a length bound
pub fn small(name: &'static str, nts: usize, ts: usize, err: bool, rhs: usize, k: usize, min: usize, len: usize) -> GFam {
    let u = all_rules(nts, ts, err, rhs);
    let mut alpha: Vec<usize> = (0..ts).collect();
    alpha.push(7); // a token kind the grammar never mentions
    GFam { name, gs: all_grammars(&u, k, min), words: words(&alpha, len) }
}
pub fn small_plain(thorough: bool) -> Vec<GFam> {
    let mut v = vec![];
    if thorough {
        v.push(small("2 nonterminals, 2 terminals, <=4 rules, RHS <=2, inputs <=6", 2, 2, false, 2, 4, 1, 6));
        v.push(small("2 nonterminals, 2 terminals, <=3 rules, RHS <=3, inputs <=5", 2, 2, false, 3, 3, 1, 5));
        v.push(three(false, 5, 5));
        v.extend(renumbered(&small("2 nonterminals, 2 terminals, <=3 rules, RHS <=2, inputs <=4", 2, 2, false, 2, 3, 1, 4), &MAPS));
    } else {
        v.push(small("2 nonterminals, 2 terminals, <=4 rules, RHS <=2, inputs <=4", 2, 2, false, 2, 4, 1, 4));
        v.push(small("2 nonterminals, 2 terminals, <=2 rules, RHS <=3, inputs <=5", 2, 2, false, 3, 2, 1, 5));
        v.push(three(false, 4, 4));
        v.extend(renumbered(&small("2 nonterminals, 2 terminals, <=3 rules, RHS <=2, inputs <=3", 2, 2, false, 2, 3, 1, 3), &MAPS));
    }
    v.extend(renumbered(&small("2 nonterminals, 2 terminals, <=2 rules, RHS <=2, inputs <=3", 2, 2, false, 2, 2, 1, 3), &EXTREME));
    v
}
pub fn small_error(thorough: bool) -> Vec<GFam> {
    let mut v: Vec<GFam> = vec![];
    if thorough {
        v.push(small("2 nonterminals, 2 terminals, ERROR, <=4 rules, RHS <=2, inputs <=5", 2, 2, true, 2, 4, 1, 5));
        v.push(small("2 nonterminals, 2 terminals, ERROR, 2 rules, RHS <=3, inputs <=6", 2, 2, true, 3, 2, 1, 6));
        v.push(three(true, 4, 5));
    } else {
        v.push(small("2 nonterminals, 2 terminals, ERROR, <=3 rules, RHS <=2, inputs <=5", 2, 2, true, 2, 3, 1, 5));
        v.push(small("2 nonterminals, 2 terminals, ERROR, 2 rules, RHS <=3, inputs <=4", 2, 2, true, 3, 2, 1, 4));
        v.push(small("1 nonterminal, 2 terminals, ERROR, <=3 rules, RHS <=3, inputs <=5", 1, 2, true, 3, 3, 1, 5));
    }
    v.extend(renumbered(&small(if thorough { "2 nonterminals, 2 terminals, ERROR, <=3 rules, RHS <=2, inputs <=4" } else { "2 nonterminals, 2 terminals, ERROR, <=3 rules, RHS <=2, inputs <=3" }, 2, 2, true, 2, 3, 1, if thorough { 4 } else { 3 }), &MAPS));
    v.extend(renumbered(&small("2 nonterminals, 2 terminals, ERROR, <=2 rules, RHS <=2, inputs <=3", 2, 2, true, 2, 2, 1, 3), &EXTREME));
    for f in &mut v {
        f.gs.retain(|g| g.has_error());
    }
    v
}
/// The family again with other indices for nonterminals and terminals: gaps, orders, starts other than 0.
pub fn renumbered(f: &GFam, maps: &[([usize; 2], [usize; 2])]) -> Vec<GFam> {
    maps.iter()
        .map(|(nm, tm)| {
            let n = |k: usize| nm[k];
            let t = |k: usize| tm.get(k).copied().unwrap_or_else(|| k.wrapping_add(tm[0]).wrapping_add(tm[1]));
            let name: &'static str = Box::leak(format!("{} (nonterminals {nm:?}, terminals {tm:?})", f.name).into_boxed_str());
            let gs = f.gs.iter().map(|g| Grammar { start: n(g.start), rules: g.rules.iter().map(|(l, r)| (n(*l), r.iter().map(|s| match s { Sy::N(k) => Sy::N(n(*k)), Sy::T(k) => Sy::T(t(*k)), Sy::E => Sy::E }).collect())).collect() }).collect();
            GFam { name, gs, words: f.words.iter().map(|w| w.iter().map(|k| t(*k)).collect()).collect() }
        })
        .collect()
}
pub const MAPS: [([usize; 2], [usize; 2]); 8] = [([1, 0], [1, 0]), ([1, 2], [1, 2]), ([2, 0], [0, 2]), ([0, 2], [2, 1]), ([2, 1], [3, 0]), ([1, 3], [2, 5]), ([3, 1], [64, 1]), ([7, 2], [1 << 33, 255])];
/// indices that coincide when cut to 8, 16 or 32 bits, or when one is added
pub const EXTREME: [([usize; 2], [usize; 2]); 7] = [([0, 256], [256, 0]), ([65536, 0], [0, 65536]), ([1 << 32, 0], [0, 1 << 32]), ([(1 << 32) + 1, 1], [(1 << 40) + 3, 3]), ([usize::MAX, 0], [usize::MAX, 0]), ([0, usize::MAX], [usize::MAX - 1, usize::MAX]), ([1 << 63, 0], [0, 1 << 63])];
/// three nonterminals that are all used, one terminal
fn three(err: bool, k: usize, len: usize) -> GFam {
    let u: Vec<_> = all_rules(3, if err { 2 } else { 1 }, err, 2)
        .into_iter()
        // canonical numbering: the start rule may mention B before C only
        .filter(|(l, r)| *l != 0 || !r.contains(&Sy::N(2)) || r.contains(&Sy::N(1)))
        .filter(|(l, r)| !err || *l != 0 || r.len() == 2)
        .collect();
    let alpha: Vec<usize> = if err { vec![0, 1] } else { vec![0, 7] };
    let mut gs = vec![];
    // one rule for A at least; chosen so that A, B, C are all defined and reachable
    let by: Vec<Vec<usize>> = (0..3).map(|n| (0..u.len()).filter(|&i| u[i].0 == n).collect()).collect();
    for &a in &by[0] {
        for &b in &by[1] {
            for &c in &by[2] {
                let base = vec![a, b, c];
                let mut opts: Vec<Vec<usize>> = vec![base.clone()];
                if k > 3 {
                    // one more rule of B or C (or A)
                    for &x in by.iter().flatten() {
                        if !base.contains(&x) && (x > b || u[x].0 != 1) && (x > c || u[x].0 != 2) && (x > a || u[x].0 != 0) && (u[x].1.len() < 2 || k > 4) {
                            let mut v = base.clone();
                            v.push(x);
                            v.sort_unstable();
                            opts.push(v);
                        }
                    }
                }
                for o in opts {
                    let g = Grammar { start: 0, rules: o.iter().map(|&i| u[i].clone()).collect() };
                    if g.defined() && g.reachable().len() == 3 && (!err || g.has_error()) && g.reachable_productive() {
                        gs.push(g);
                    }
                }
            }
        }
    }
    GFam { name: if err { "3 nonterminals, 2 terminals, ERROR, RHS <=2" } else { "3 nonterminals, 1 terminal, RHS <=2" }, gs, words: words(&alpha, len) }
}

pub const CURATED: [(&str, &str); 35] = [
    ("expr", "E ::= E + T | T; T ::= T * F | F; F ::= ( E ) | n"),
    ("expr_unary", "E ::= E + T | E - T | T; T ::= T * F | T / F | F; F ::= n | + n | - n | ( E ) | s F"),
    ("right_assoc", "E ::= T ^ E | T; T ::= n | ( E )"),
    ("json", "V ::= { } | { M } | [ ] | [ L ] | s | n; M ::= P | M , P; P ::= s : V; L ::= V | L , V"),
    ("list_eps", "L ::= () | L a"),
    ("list_right", "L ::= () | a L"),
    ("sep", "L ::= () | N; N ::= N c a | a"),
    ("lr1_not_lalr", "S ::= a A d | b B d | a B e | b A e; A ::= c; B ::= c"),
    ("null_chain", "S ::= A B C d; A ::= () | a; B ::= () | b; C ::= () | c"),
    ("null_deep", "S ::= A x; A ::= B C; B ::= C D; C ::= () | c; D ::= E E; E ::= ()"),
    ("null_tail", "S ::= x A B C; A ::= () | a; B ::= () | b; C ::= () | c"),
    ("long_rhs", "S ::= a b A c d B e f g; A ::= () | h; B ::= a B b | i"),
    ("nest", "S ::= a S b | c"),
    ("nest2", "S ::= a S b | c S d | ()"),
    ("pal_center", "S ::= a S a | b S b | c"),
    ("if_matched", "S ::= M | U; M ::= i M e M | x; U ::= i S | i M e U"),
    ("stmts", "P ::= () | P S; S ::= n = E ; | w ( E ) { P } | r E ;; E ::= E + T | T; T ::= n | k | ( E )"),
    ("decl", "S ::= T I ;; T ::= t | T *; I ::= n | I [ ]"),
    ("indirect_left", "S ::= A a | b; A ::= S c | d"),
    ("unit_chain", "A ::= B; B ::= C; C ::= D; D ::= E; E ::= F; F ::= f | f A"),
    ("opt_start", "S ::= A B; A ::= () | a A; B ::= b"),
    ("first_through", "S ::= A B C D; A ::= () | a; B ::= () | b; C ::= () | c; D ::= d | D e"),
    ("look_eoi", "S ::= A | B x; A ::= a a; B ::= a"),
    ("assign", "S ::= L = R | R; L ::= * R | i; R ::= L"),
    // with ERROR
    ("pinned", "A ::= A + P | ERROR + P | ERROR + ERROR | P; P ::= P * I | I; I ::= ( A ) | ( ERROR ) | n"),
    ("err_stmts", "P ::= () | P S; S ::= n = E ; | ERROR ;; E ::= E + T | T; T ::= n | ( E ) | ( ERROR )"),
    ("err_block", "B ::= { L }; L ::= () | L S; S ::= B | x ; | ERROR ;"),
    ("err_list", "L ::= [ N ]; N ::= N c E | E; E ::= n | L | ERROR"),
    ("err_end", "S ::= a S | ERROR | b"),
    ("err_two", "S ::= A ; B; A ::= a a | ERROR a; B ::= b b | ERROR b"),
    ("err_mid", "S ::= a ERROR b | a c b | a c d; "),
    ("err_nested", "S ::= ( S ) | [ S ] | ( ERROR ) | [ ERROR ] | x S | ()"),
    ("err_null", "S ::= N a b | ERROR c; N ::= ()"),
    ("err_again", "S ::= a b C d | ERROR b D; C ::= c C | c; D ::= c D | e D | c | e"),
    ("err_deep", "S ::= A d f | ERROR g; A ::= B c | ERROR c; B ::= b | b B"),
];
/// grammars with conflicts
pub const CONFLICTED: [(&str, &str); 8] = [
    ("dangling_else", "S ::= i S | i S e S | x"),
    ("amb_expr", "E ::= E + E | E * E | n"),
    ("amb_concat", "S ::= S S | a"),
    ("rr_first", "S ::= A x | B x; A ::= a; B ::= a"),
    ("rr_three", "S ::= A | B | C; A ::= a; B ::= a; C ::= a | b"),
    ("cyclic", "S ::= A | a; A ::= S b | S"),
    ("not_lr1", "S ::= A a a | B a b; A ::= c; B ::= c"),
    ("eps_conflict", "S ::= A B; A ::= () | a; B ::= () | a"),
];
pub fn curated_src(s: &str) -> Grammar {
    // ';;' writes the terminal ';' followed by the rule separator; a single ' ; ' inside an
    // alternative is the terminal as well
    let s = s.trim().trim_end_matches("; ").trim_end_matches(';').to_string();
    let mut rules: Vec<String> = vec![String::new()];
    // split at "; X ::=" boundaries
    let parts: Vec<&str> = s.split("::=").collect();
    for (i, p) in parts.iter().enumerate() {
        if i == 0 {
            rules[0] = format!("{} ::=", p.trim());
        } else if i + 1 == parts.len() {
            rules.last_mut().unwrap().push_str(&format!(" {}", p.trim()));
        } else {
            let p = p.trim();
            let (body, next) = p.rsplit_once(char::is_whitespace).unwrap();
            let body = body.trim().strip_suffix(';').unwrap();
            rules.last_mut().unwrap().push_str(&format!(" {body}"));
            rules.push(format!("{next} ::="));
        }
    }
    let j: Vec<String> = rules.iter().map(|r| r.replace(';', "semi")).collect();
    Grammar::parse(&j.join(";"))
}
pub fn curated(err: bool) -> Vec<(&'static str, Grammar)> {
    let mut v: Vec<(&'static str, Grammar)> = CURATED.iter().map(|(n, s)| (*n, curated_src(s))).filter(|(_, g)| g.has_error() == err).collect();
    if !err {
        v.push(("prec20", prec(20)));
        v.push(("many_terms", many_terms(70)));
        v.push(("many_rules", many_terms(300)));
        v.push(("rhs40", Grammar { start: 0, rules: vec![(0, (0..40).map(|i| if i % 5 == 4 { Sy::N(1) } else { Sy::T(i % 3) }).collect()), (1, vec![]), (1, vec![Sy::T(3)])] }));
        v.push(("null_chain12", null_chain(12)));
    }
    let mut more = vec![];
    for (n, g) in &v {
        if g.rules.len() <= 14 {
            more.push((*n, sparse(g)));
            more.push((*n, reversed(g)));
        }
    }
    v.extend(more);
    v
}
/// the same grammar with scattered, order-reversing token and nonterminal indices
pub fn sparse(g: &Grammar) -> Grammar {
    let n = |k: usize| [900, 3, 17, 256, 1, 70000, 64, 5][k % 8] + 1000 * (k / 8);
    let t = |k: usize| [1 << 40, 11, 5, 4096, 2, 300, 77, 1][k % 8] + 1_000_000 * (k / 8);
    Grammar { start: n(g.start), rules: g.rules.iter().map(|(l, r)| (n(*l), r.iter().map(|s| match s { Sy::N(k) => Sy::N(n(*k)), Sy::T(k) => Sy::T(t(*k)), Sy::E => Sy::E }).collect())).collect() }
}
pub fn reversed(g: &Grammar) -> Grammar {
    Grammar { start: g.start, rules: g.rules.iter().rev().cloned().collect() }
}
pub fn prec(levels: usize) -> Grammar {
    let mut rules = vec![];
    for l in 0..levels {
        rules.push((l, vec![Sy::N(l), Sy::T(l), Sy::N(l + 1)]));
        rules.push((l, vec![Sy::N(l + 1)]));
    }
    rules.push((levels, vec![Sy::T(levels)]));
    Grammar { start: 0, rules }
}
pub fn many_terms(k: usize) -> Grammar {
    let mut rules = vec![(0, vec![Sy::N(0), Sy::N(1)]), (0, vec![])];
    for i in 0..k {
        rules.push((1, vec![Sy::T(i), Sy::T((i + 1) % k)]));
    }
    Grammar { start: 0, rules }
}
pub fn null_chain(k: usize) -> Grammar {
    let mut rules = vec![(0, (1..=k).map(Sy::N).collect())];
    for i in 1..=k {
        rules.push((i, vec![]));
        rules.push((i, vec![Sy::T(i)]));
    }
    Grammar { start: 0, rules }
}

/// Viable prefixes of a conflict-free grammar, breadth first (at most `budget`), with the flag
/// "is a sentence".
pub fn prefixes(lr: &Lr, budget: usize) -> Vec<(Vec<usize>, bool)> {
    let kinds: Vec<(usize, usize)> = lr.tidx.iter().map(|(k, a)| (*k, *a)).collect();
    let step = |st: &Vec<usize>, la: usize| -> Option<(Vec<usize>, bool)> {
        let mut s = st.clone();
        for _ in 0..10_000 {
            match lr.action[*s.last().unwrap()][la] {
                Act::None => return None,
                Act::Accept => return Some((s, true)),
                Act::Shift(n) => {
                    s.push(n);
                    return Some((s, false));
                }
                Act::Reduce(r) => {
                    let (l, rhs) = &lr.g.rules[r];
                    s.truncate(s.len() - rhs.len());
                    let q = lr.goto[*s.last().unwrap()][l];
                    s.push(q);
                }
            }
        }
        None
    };
    // long inputs are `pumped`'s business; here every prefix gets all its edits
    let maxlen = 12.max(lr.g.rules.iter().map(|r| r.1.len()).max().unwrap_or(0) + 6);
    let mut out = vec![];
    let mut q = std::collections::VecDeque::from([(vec![], vec![0usize])]);
    while let Some((w, st)) = q.pop_front() {
        let sentence = matches!(step(&st, lr.eoi), Some((_, true)));
        for &(k, a) in &kinds {
            if out.len() + q.len() < budget && w.len() < maxlen {
                if let Some((s, false)) = step(&st, a) {
                    let mut x = w.clone();
                    x.push(k);
                    q.push_back((x, s));
                }
            }
        }
        out.push((w, sentence));
    }
    out
}
/// All sentences among the first `budget` viable prefixes, all their single-token edits (delete,
/// insert, replace, truncate, duplicate), and every viable prefix followed by every token.
pub fn edits(lr: &Lr, budget: usize, two: usize) -> Vec<Vec<usize>> {
    let mut kinds: Vec<usize> = lr.tidx.keys().copied().collect();
    if kinds.len() > 12 {
        let k = kinds.len();
        kinds = kinds.into_iter().step_by(k / 8).collect();
    }
    kinds.push(999_983); // unknown to the grammar
    let pre = prefixes(lr, budget);
    let mut out: BTreeSet<(usize, Vec<usize>)> = BTreeSet::new();
    let one = |w: &[usize], out: &mut Vec<Vec<usize>>| {
        for i in 0..=w.len() {
            for &k in &kinds {
                let mut x = w.to_vec();
                x.insert(i, k);
                out.push(x);
                if i < w.len() {
                    let mut x = w.to_vec();
                    x[i] = k;
                    out.push(x);
                }
            }
            if i < w.len() {
                let mut x = w.to_vec();
                x.remove(i);
                out.push(x);
                let mut x = w.to_vec();
                x.swap(i, (i + 1).min(w.len() - 1));
                out.push(x);
            }
        }
    };
    let mut seconds = 0;
    for (w, sent) in &pre {
        out.insert((w.len(), w.clone()));
        for &k in &kinds {
            let mut x = w.clone();
            x.push(k);
            out.insert((x.len(), x));
        }
        if *sent {
            let mut e = vec![];
            one(w, &mut e);
            for x in e {
                if seconds < two {
                    let mut f = vec![];
                    one(&x, &mut f);
                    seconds += f.len();
                    out.extend(f.into_iter().map(|y| (y.len(), y)));
                }
                out.insert((x.len(), x));
            }
        }
    }
    out.into_iter().map(|x| x.1).collect()
}
/// Long and deep inputs: the first sentences repeated by pumping every middle part that can be pumped.
pub fn pumped(lr: &Lr, reps: &[usize]) -> Vec<Vec<usize>> {
    let pre = prefixes(lr, 400);
    let sents: Vec<&Vec<usize>> = pre.iter().filter(|x| x.1 && !x.0.is_empty()).map(|x| &x.0).take(12).collect();
    let mut out = vec![];
    let mut seen = HashSet::new();
    for s in sents {
        for i in 0..s.len() {
            for j in i + 1..=s.len().min(i + 4) {
                // u v^n w
                for &n in reps {
                    let mut x = s[..j].to_vec();
                    for _ in 0..n {
                        x.extend(&s[i..j]);
                    }
                    x.extend(&s[j..]);
                    if seen.insert((x.clone(),)) {
                        out.push(x);
                    }
                }
                // u v^n w x^n y
                for k in j..s.len() {
                    let l = (k + 1).min(s.len());
                    for &n in reps {
                        let mut x = s[..j].to_vec();
                        for _ in 0..n {
                            x.extend(&s[i..j]);
                        }
                        x.extend(&s[j..k]);
                        for _ in 0..n {
                            x.extend(&s[k..l]);
                        }
                        x.extend(&s[k..]);
                        if seen.insert((x.clone(),)) {
                            out.push(x);
                        }
                    }
                }
            }
        }
    }
    out
}

/// Inputs that take a conflict-free LR(1) automaton through every state and, in every state, every
/// token (all expected ones; of the others at most `wrong`): a shortest way there, the token, then a
/// shortest completion. A wrong token is also put in front of a completion, and the input is cut
/// there.
pub fn state_cover(lr: &Lr, wrong: usize) -> Vec<Vec<usize>> {
    const JUNK: usize = 999_983;
    // shortest yields; ERROR counts as one token nobody expects
    let mut y: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
    let yield_of = |y: &std::collections::BTreeMap<usize, Vec<usize>>, r: &[Sy]| -> Option<Vec<usize>> {
        let mut v = vec![];
        for s in r {
            match s {
                Sy::T(t) => v.push(*t),
                Sy::E => v.push(JUNK),
                Sy::N(n) => v.extend(y.get(n)?),
            }
        }
        Some(v)
    };
    loop {
        let mut ch = false;
        for (l, r) in &lr.g.rules {
            if let Some(v) = yield_of(&y, r) {
                let key = |v: &Vec<usize>| (v.iter().filter(|x| **x == JUNK).count(), v.len());
                if y.get(l).is_none_or(|o| key(&v) < key(o)) {
                    y.insert(*l, v);
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    let kinds: Vec<(usize, usize)> = lr.tidx.iter().map(|(k, a)| (*k, *a)).collect();
    // shortest way to every state: (word, stack)
    let n = lr.states();
    let mut way: Vec<Option<(Vec<usize>, Vec<usize>)>> = vec![None; n];
    let mut heap = BTreeSet::from([(0usize, vec![], vec![0usize])]);
    while let Some((_, w, st)) = heap.pop_first() {
        let q = *st.last().unwrap();
        if way[q].is_some() {
            continue;
        }
        let mut next = |part: &[usize], s: usize| {
            let mut x = w.clone();
            x.extend(part);
            let mut t = st.clone();
            t.push(s);
            heap.insert((x.len(), x, t));
        };
        for &(k, a) in &kinds {
            if let Act::Shift(s) = lr.action[q][a] {
                next(&[k], s);
            }
        }
        if let Act::Shift(s) = lr.action[q][lr.err] {
            next(&[JUNK], s);
        }
        for (m, s) in &lr.goto[q] {
            if let Some(v) = y.get(m) {
                next(v, *s);
            }
        }
        way[q] = Some((w, st));
    }
    let complete = |st: &[usize]| -> Option<Vec<usize>> {
        let mut heap = BTreeSet::from([(0usize, st.to_vec(), Vec::<usize>::new())]);
        let mut seen = HashSet::new();
        while let Some((_, st, w)) = heap.pop_first() {
            if !seen.insert(st.clone()) {
                continue;
            }
            if seen.len() > 3000 {
                return None;
            }
            let q = *st.last().unwrap();
            if st.len() == 1 {
                let v = y.get(&lr.g.start)?;
                return Some(w.into_iter().chain(v.iter().copied()).collect());
            }
            for &(r, p) in &lr.kernels[q] {
                if r == lr.g.rules.len() {
                    return Some(w);
                }
                let (l, rhs) = &lr.g.rules[r];
                let Some(v) = yield_of(&y, &rhs[p..]) else { continue };
                let mut t = st[..st.len() - p].to_vec();
                t.push(lr.goto[*t.last().unwrap()][l]);
                let mut x = w.clone();
                x.extend(v);
                heap.insert((x.len(), t, x));
            }
        }
        None
    };
    let mut out = BTreeSet::new();
    for x in way.iter().flatten() {
        let (w, st) = x;
        let end = complete(st);
        let cat = |parts: &[&[usize]]| -> Vec<usize> { parts.concat() };
        if let Some(e) = &end {
            out.insert((w.len() + e.len(), cat(&[w, e])));
        }
        out.insert((w.len(), w.clone()));
        let q = *st.last().unwrap();
        let mut bad = vec![JUNK];
        for &(k, a) in &kinds {
            // follow reductions up to the shift
            let mut s = st.clone();
            let ok = loop {
                match lr.action[*s.last().unwrap()][a] {
                    Act::None | Act::Accept => break false,
                    Act::Shift(t) => {
                        s.push(t);
                        break true;
                    }
                    Act::Reduce(r) => {
                        let (l, rhs) = &lr.g.rules[r];
                        s.truncate(s.len() - rhs.len());
                        s.push(lr.goto[*s.last().unwrap()][l]);
                    }
                }
            };
            if ok {
                if let Some(e) = complete(&s) {
                    out.insert((w.len() + 1 + e.len(), cat(&[w, &[k], &e])));
                }
            } else if lr.action[q][a] == Act::None {
                bad.push(k);
            }
        }
        if bad.len() > wrong {
            // both ends and evenly spread in between
            let m = bad.len();
            bad = (0..wrong).map(|i| bad[i * (m - 1) / (wrong - 1).max(1)]).collect();
            bad.dedup();
        }
        for k in bad {
            out.insert((w.len() + 1, cat(&[w, &[k]])));
            if let Some(e) = &end {
                out.insert((w.len() + 1 + e.len(), cat(&[w, &[k], e])));
            }
        }
    }
    out.into_iter().map(|x| x.1).collect()
}
/// Grammars of growing size, around powers of two: rule counts, right-hand sides, chains, levels,
/// nullable runs, terminal counts, error rules.
pub fn gsizes(thorough: bool, err: bool) -> Vec<(&'static str, Grammar)> {
    let mut v: Vec<(&'static str, Grammar)> = vec![];
    let upto = |m: usize| sizes(m as u32).into_iter().map(|x| x as usize).filter(|x| *x >= 2).collect::<Vec<_>>();
    let t = thorough;
    let (t_, n_) = (Sy::T, Sy::N);
    for (_, src) in CURATED {
        let g = curated_src(src);
        if g.has_error() == err {
            for k in if t { &[20, 40, 70, 130, 260, 520][..] } else { &[40, 130, 300] } {
                v.push(("curated grammars with an unrelated part", padded(&g, *k, false)));
                v.push(("curated grammars with an unrelated part", padded(&g, *k / 4, true)));
            }
        }
    }
    let mut push = |name: &'static str, rules: Vec<(usize, Vec<Sy>)>| v.push((name, Grammar { start: 0, rules }));
    if !err {
        for k in upto(if t { 520 } else { 260 }) {
            // n alternatives, n terminals
            push("alternatives", (0..k).map(|i| (0, vec![t_(i), t_(0)])).collect());
            // one long rule, several terminals and an optional part in it
            push("long rule", vec![(0, (0..k).map(|i| if i == k / 2 { n_(1) } else { t_(i % 3) }).collect()), (1, vec![]), (1, vec![t_(3)])]);
            // chain of unit rules
            push("unit chain", (0..k).map(|i| (i, vec![n_(i + 1)])).chain([(k, vec![t_(0)]), (k, vec![t_(1), t_(0)])]).collect());
            // chain where every level consumes
            push("chain", (0..k).flat_map(|i| [(i, vec![t_(i % 2), n_(i + 1)]), (i, vec![t_(2)])]).chain([(k, vec![t_(0)])]).collect());
        }
        for k in upto(if t { 130 } else { 66 }) {
            // list of pairs over n terminals
            v.push(("list over n terminals", many_terms(k)));
        }
        for k in upto(if t { 34 } else { 18 }) {
            v.push(("precedence levels", prec(k)));
        }
        for k in upto(if t { 18 } else { 16 }) {
            v.push(("optional parts", null_chain(k)));
        }
        let mut push = |name: &'static str, rules: Vec<(usize, Vec<Sy>)>| v.push((name, Grammar { start: 0, rules }));
        for k in upto(if t { 260 } else { 130 }) {
            // what follows a symbol is n levels away
            for rev in [false, true] {
                let mut r: Vec<(usize, Vec<Sy>)> = [(0, vec![n_(k + 2), n_(1)]), (k + 2, vec![t_(2)]), (k + 2, vec![t_(2), t_(3)])].into_iter().chain((1..=k).map(|i| (i, vec![n_(i + 1)]))).chain([(k + 1, vec![t_(0)]), (k + 1, vec![t_(1), t_(0)])]).collect();
                let mut q: Vec<(usize, Vec<Sy>)> = [(0, vec![t_(2), n_(k + 2), n_(1), t_(3)]), (k + 2, vec![]), (k + 2, vec![t_(0)])].into_iter().chain((1..=k).map(|i| (i, vec![n_(i + 1)]))).chain([(k + 1, vec![]), (k + 1, vec![t_(1), t_(0)])]).collect();
                if rev {
                    r.reverse();
                    q.reverse();
                }
                push("FIRST through a chain", r);
                push("FIRST through a nullable chain", q);
            }
        }
        for k in upto(if t { 34 } else { 18 }) {
            // n nullable levels in front of a token
            push("nullable chain", [(0, vec![n_(1), t_(0)])].into_iter().chain((1..k).map(|i| (i, vec![n_(i + 1), n_(k + 1)]))).chain([(k, vec![]), (k, vec![t_(1)]), (k + 1, vec![])]).collect());
            // n bracket kinds
            push("bracket kinds", (0..k).map(|i| (0, vec![t_(2 * i), n_(0), t_(2 * i + 1)])).chain([(0, vec![])]).collect());
        }
    } else {
        for k in upto(if t { 260 } else { 130 }) {
            // a long rule given up as a whole
            push("long rule, ERROR", vec![(0, vec![n_(1), n_(0)]), (0, vec![n_(1)]), (1, (0..k).map(|i| t_(i % 2)).chain([t_(2)]).collect()), (1, vec![Sy::E, t_(2)])]);
            push("unit chain, ERROR", (0..k).map(|i| (i, vec![n_(i + 1)])).chain([(k, vec![t_(0)]), (k, vec![t_(1), Sy::E, t_(0)])]).collect());
            push("ERROR below a chain", (0..k).map(|i| (i, vec![t_(i % 2), n_(i + 1)])).chain([(k, vec![t_(2)]), (k, vec![Sy::E])]).collect());
            push("ERROR above a chain", [(0, vec![Sy::E, t_(3)])].into_iter().chain((0..k).map(|i| (i, vec![t_(i % 2), n_(i + 1)]))).chain([(k, vec![t_(2)])]).collect());
        }
        for k in upto(if t { 130 } else { 66 }) {
            // n error rules in one place
            push("n error rules", (0..k).flat_map(|i| [(0, vec![t_(i), t_(k)]), (0, vec![t_(i), Sy::E, t_(k + 1)])]).collect());
            // the same error context with n continuations
            push("n ends of ERROR", (0..k).map(|i| (0, vec![Sy::E, t_(i)])).chain([(0, vec![t_(k)])]).collect());
        }
        for k in upto(if t { 66 } else { 34 }) {
            // a finished part of n symbols that is taken back: n tokens, the same behind an empty part, n
            // parts, n empty parts
            for body in [
                (0..k).map(|i| t_(i % 2)).collect::<Vec<_>>(),
                [n_(5)].into_iter().chain((0..k).map(|i| t_(i % 2))).collect(),
                (0..k).map(|i| if i % 3 == 2 { t_(1) } else { n_(4) }).collect(),
                (0..k).map(|_| n_(5)).collect(),
                (0..k).map(|i| if i + 1 == k { t_(0) } else { n_(5) }).collect(),
                [Sy::E].into_iter().chain((0..k).map(|i| t_(i % 2))).collect(),
            ] {
                push("n symbols taken back", vec![(0, vec![n_(1), t_(4)]), (0, vec![Sy::E, t_(4)]), (1, vec![n_(2), t_(3)]), (2, body), (4, vec![t_(0)]), (5, vec![])]);
            }
            // n error rules in one state, and one elsewhere, in a list
            push("n error rules in one state", [(0, vec![n_(0), n_(1)]), (0, vec![n_(1)]), (1, vec![n_(2)]), (1, vec![n_(3)])].into_iter().chain((0..k).map(|i| (2, vec![t_(0), Sy::E, t_(i + 4)]))).chain([(3, vec![t_(1), Sy::E, t_(2)])]).collect());
            push("n error rules in n states", [(0, vec![n_(0), n_(1)]), (0, vec![n_(1)])].into_iter().chain((0..k).map(|i| (1, vec![t_(i + 2), Sy::E, t_(i % 2)]))).collect());
        }
        for k in upto(if t { 34 } else { 18 }) {
            // n levels, each with an error rule
            push("n levels of ERROR", (0..k).flat_map(|i| [(i, vec![t_(0), n_(i + 1), t_(1)]), (i, vec![t_(0), Sy::E, t_(1)])]).chain([(k, vec![t_(2)])]).collect());
            push("n bracket kinds, ERROR", (0..k).flat_map(|i| [(0, vec![t_(2 * i), n_(0), t_(2 * i + 1)]), (0, vec![t_(2 * i), Sy::E, t_(2 * i + 1)])]).chain([(0, vec![])]).collect());
            push("list of n statements, ERROR", [(0, vec![]), (0, vec![n_(0), n_(1)]), (1, vec![Sy::E, t_(0)])].into_iter().chain((1..=k).map(|i| (1, vec![t_(i), t_(1), t_(0)]))).collect());
        }
    }
    v
}

/// One word for every error rule, used once, in all pairs (selected pairs if there are many of them): in
/// grammars of lists these are inputs with two errors.
pub fn two_errors(lr: &Lr, all: usize) -> Vec<Vec<usize>> {
    const JUNK: usize = 999_983;
    let cost = |v: &[usize]| (v.iter().filter(|x| **x == JUNK).count(), v.len());
    let mut y: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
    let text = |y: &std::collections::BTreeMap<usize, Vec<usize>>, r: &[Sy]| -> Option<Vec<usize>> {
        let mut v = vec![];
        for s in r {
            match s {
                Sy::T(t) => v.push(*t),
                Sy::E => v.push(JUNK),
                Sy::N(n) => v.extend(y.get(n)?),
            }
        }
        Some(v)
    };
    let mut around: std::collections::BTreeMap<usize, (Vec<usize>, Vec<usize>)> = [(lr.g.start, (vec![], vec![]))].into_iter().collect();
    loop {
        let mut ch = false;
        for (l, r) in &lr.g.rules {
            if let Some(v) = text(&y, r) {
                if y.get(l).is_none_or(|o| cost(&v) < cost(o)) {
                    y.insert(*l, v);
                    ch = true;
                }
            }
            let Some((a, b)) = around.get(l).cloned() else { continue };
            for (i, s) in r.iter().enumerate() {
                let Sy::N(n) = s else { continue };
                let (Some(p), Some(q)) = (text(&y, &r[..i]), text(&y, &r[i + 1..])) else { continue };
                let (p, q) = ([a.clone(), p].concat(), [q, b.clone()].concat());
                if around.get(n).is_none_or(|(c, d)| cost(&[&p[..], &q[..]].concat()) < cost(&[&c[..], &d[..]].concat())) {
                    around.insert(*n, (p, q));
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    let ws: Vec<Vec<usize>> = lr.g.rules.iter().filter(|r| r.1.contains(&Sy::E)).filter_map(|(l, r)| { let (a, b) = around.get(l)?; Some([&a[..], &text(&y, r)?, b].concat()) }).collect();
    let n = ws.len();
    let mut out = BTreeSet::new();
    for i in 0..n {
        for j in 0..n {
            if n <= all || [0, 1, n / 2, n - 2, n - 1].contains(&j) || [0, 1, n / 2, n - 2, n - 1].contains(&i) {
                out.insert([&ws[i][..], &ws[j]].concat());
            }
        }
    }
    out.into_iter().collect()
}
/// The same grammar with an unrelated part of about k states: one long rule, or many short ones in front
/// (which renumbers the others).
pub fn padded(g: &Grammar, k: usize, wide: bool) -> Grammar {
    let fresh = 1 + g.rules.iter().flat_map(|r| &r.1).filter_map(|s| if let Sy::T(t) = s { Some(*t) } else { None }).max().unwrap_or(0);
    let mut g = g.clone();
    if wide {
        for i in 0..k {
            g.rules.insert(i, (g.start, vec![Sy::T(fresh + i)]));
        }
    } else {
        g.rules.push((g.start, vec![Sy::T(fresh); k]));
    }
    g
}
/// Long input in which every position in turn has an unexpected token: unknown to the grammar, or the
/// first or last kind it has.
pub fn wrong_everywhere(lr: &Lr, n: usize) -> Vec<Vec<usize>> {
    let Some(w) = pumped(lr, &[n]).into_iter().filter(|w| w.len() >= n && matches!(lr.run(w).out, crate::gram::Out::Ok(_))).min_by_key(|w| w.len()) else { return vec![] };
    let kinds = [Some(999_983), lr.tidx.keys().next().copied(), lr.tidx.keys().last().copied()];
    let mut out = vec![];
    for p in 0..w.len().min(n + 10) {
        let mut x = w.clone();
        x[p] = kinds[p % 3].unwrap_or(999_983);
        out.push(x);
        let mut x = w.clone();
        x.insert(p, kinds[(p + 1) % 3].unwrap_or(999_983));
        out.push(x);
    }
    out
}

/// A few grammars with inputs of tens of thousands of tokens: long, deep, and with errors early, in
/// the middle and late.
pub fn very_long(thorough: bool, err: bool) -> Vec<(Grammar, Vec<Vec<usize>>)> {
    let n = if thorough { 140_000 } else { 66_000 };
    let get = |name: &str| curated_src(CURATED.iter().find(|c| c.0 == name).unwrap().1);
    let rep = |unit: &[usize], k: usize| -> Vec<usize> { unit.iter().copied().cycle().take(unit.len() * k).collect() };
    let mut out = vec![];
    // terminals of the curated grammars are numbered in order of appearance
    if !err {
        out.push((get("list_eps"), vec![rep(&[0], n), [rep(&[0], n), vec![7]].concat()]));
        out.push((get("list_right"), vec![rep(&[0], n)]));
        // E ::= E + T ...: + * ( ) n
        out.push((get("expr"), vec![[rep(&[4, 0], n / 2), vec![4]].concat(), [rep(&[2], n / 2), vec![4], rep(&[3], n / 2)].concat(), [rep(&[4, 0, 4, 1], n / 4), vec![4, 4]].concat(), [rep(&[2], n / 2), vec![4], rep(&[3], n / 2 - 1)].concat()]));
        // a b c
        out.push((get("nest"), vec![[rep(&[0], n / 2), vec![2], rep(&[1], n / 2)].concat(), [rep(&[0], n / 2), vec![2], rep(&[1], n / 2 + 1)].concat()]));
        out.push((many_terms(3), vec![rep(&[0, 1, 1, 2, 2, 0], n / 6)]));
    } else {
        // n = ; + ( )
        let g = get("err_stmts");
        let stmt = [0, 1, 0, 2];
        let m = n / 4;
        out.push((g, vec![rep(&stmt, m), [vec![1, 2], rep(&stmt, m)].concat(), [rep(&stmt, m), vec![0, 1, 3, 2]].concat(), [rep(&stmt, m / 2), vec![0, 0, 0, 2], rep(&stmt, m / 2), vec![2]].concat(), rep(&[0, 1, 4, 0, 0, 5, 2], n / 7)]));
        // a b c d e: tokens given up at once are looked at again
        let again = |k: usize| [vec![0, 1], rep(&[2], k), vec![4, 4]].concat();
        out.push((get("err_again"), sizes(if thorough { 1100 } else { 520 }).into_iter().map(|k| again(k as usize)).chain([again(4100), again(n)]).collect()));
        // ( ) [ ] x
        let g = get("err_nested");
        out.push((g, vec![[rep(&[0], n / 2), vec![3], rep(&[1], n / 2)].concat(), rep(&[4], n)]));
    }
    out
}
