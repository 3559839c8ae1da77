From cd570a4cfe42a1e246fef7d994280457bab1d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:22 +0000
Subject: [PATCH 1/8] fix: optional and repeated groups no longer accept
 strings outside the regular expression

The shortcut edges of ?, *, {n,} and {0,m} were added to begin/end nodes that
can be re-entered or left again in the middle of a match, e.g. (a+b)* matched
"a" and (ab*)? matched "b".
---
 tokenizer/src/nfa.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/tokenizer/src/nfa.rs b/tokenizer/src/nfa.rs
index 8890d84..f8c9525 100644
--- a/tokenizer/src/nfa.rs
+++ b/tokenizer/src/nfa.rs
@@ -224,6 +224,39 @@ impl Clone for NFA {
     }
 }
 
+impl NFA {
+    /// Replaces `begin` by a fresh node unless no edge leads back to it.
+    fn isolate_begin(mut self) -> Self {
+        let begin = Edge(Arc::downgrade(&self.begin));
+        let has_incoming = self.node.iter().any(|node| {
+            let node = node.read().unwrap();
+            node.epsilon.contains(&begin) || node.next.values().any(|set| set.contains(&begin))
+        });
+        if has_incoming {
+            let new_begin: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            new_begin.write().unwrap().epsilon.insert(begin);
+            self.node.push(Arc::clone(&new_begin));
+            self.begin = new_begin;
+        }
+        self
+    }
+
+    /// Replaces `end` by a fresh node unless no edge leaves it.
+    fn isolate_end(mut self) -> Self {
+        let has_outgoing = {
+            let end = self.end.read().unwrap();
+            !end.epsilon.is_empty() || !end.next.is_empty()
+        };
+        if has_outgoing {
+            let new_end: Arc<RwLock<NFANode>> = Arc::new(Default::default());
+            self.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&new_end)));
+            self.node.push(Arc::clone(&new_end));
+            self.end = new_end;
+        }
+        self
+    }
+}
+
 impl TryFrom<Hir> for NFA {
     type Error = <NFA as TryFrom<HirKind>>::Error;
 
@@ -284,10 +317,12 @@ impl TryFrom<HirKind> for NFA {
                 let mut inner = NFA::try_from(repetition.hir.into_kind())?;
                 match repetition.kind {
                     RepetitionKind::ZeroOrOne => {
+                        let inner = inner.isolate_begin().isolate_end();
                         inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
                         Ok(inner)
                     }
                     RepetitionKind::ZeroOrMore => {
+                        let mut inner = inner.isolate_begin();
                         inner.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
                         inner.end = Arc::clone(&inner.begin);
                         Ok(inner)
@@ -319,11 +354,13 @@ impl TryFrom<HirKind> for NFA {
                         },
                         RepetitionRange::AtLeast(n) => match n {
                             0 => {
+                                let mut inner = inner.isolate_begin();
                                 inner.end.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
                                 inner.end = Arc::clone(&inner.begin);
                                 Ok(inner)
                             }
                             n => {
+                                let mut inner = inner.isolate_begin();
                                 let NFA { mut node, begin, mut end } = inner.clone();
                                 for _ in 0..n - 1 {
                                     let mut nfa = inner.clone();
@@ -345,10 +382,12 @@ impl TryFrom<HirKind> for NFA {
                                 Ok(NFA { node: vec![Arc::clone(&node)], begin: Arc::clone(&node), end: node })
                             }
                             (0, 1) => {
+                                let inner = inner.isolate_begin().isolate_end();
                                 inner.begin.write().unwrap().epsilon.insert(Edge(Arc::downgrade(&inner.end)));
                                 Ok(inner)
                             }
                             (0, n) => {
+                                let mut inner = inner.isolate_begin().isolate_end();
                                 let NFA { mut node, begin, mut end } = inner.clone();
                                 for _ in 0..n - 2 {
                                     let mut nfa = inner.clone();
-- 
2.43.0


From e17988d1a98459e5d381dbef9f47c10bc8f5748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:51 +0000
Subject: [PATCH 2/8] fix: minimisation no longer merges states whose ranges
 differ only in their end

CharRange is equal by start only while its Hash covers the whole range, so two
different transition rows were one map key whenever their hashes collided: about
one build in a hundred produced a tokenizer that accepted wrong strings.
---
 tokenizer/src/dfa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/dfa.rs b/tokenizer/src/dfa.rs
index d6d87a2..19cbdbb 100644
--- a/tokenizer/src/dfa.rs
+++ b/tokenizer/src/dfa.rs
@@ -149,7 +149,8 @@ impl<'a> TokenizerDFA<'a> {
                 let mut split_group = HashMap::new();
                 for node in set {
                     let node_next = &(*node).next;
-                    let compressed_next = Self::compress_next(&group_map, node_next);
+                    // CharRange compares by its start only, so the ends have to be spelled out in the key
+                    let compressed_next = Self::compress_next(&group_map, node_next).into_iter().map(|(CharRange { range }, group)| (range.start, range.end, group)).collect::<Vec<_>>();
                     split_group.entry(compressed_next).or_insert_with(HashSet::new).insert(node.reference());
                 }
                 updated |= split_group.len() > 1;
-- 
2.43.0


From df6e703d669986e13ffd0acc567ddc3383c1d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:52 +0000
Subject: [PATCH 3/8] fix: a conflict between accepting and reducing at the end
 of input is reported

Accept silently replaced a Reduce on EOI (e.g. S ::= S | a), so an ambiguous
grammar could be built without any warning.
---
 parser/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index dd8008f..5c0f90a 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -249,7 +249,9 @@ fn calc_table<N, T, E>(state_list: HashMap<StateInterop, GotoListInterop>, start
         for item in state {
             if item.position == rules[item.rule].symbols.len() {
                 if item.rule == start_rule {
-                    action.insert(TerminalSymbol::EOI, Action::Accept);
+                    if let Some(Action::Reduce(reduce)) = action.insert(TerminalSymbol::EOI, Action::Accept) {
+                        warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [reduce, item.rule] });
+                    }
                 } else {
                     match action.get(&item.lookahead_symbol) {
                         None => {
-- 
2.43.0


From 35f8c56fda555659a3181e663cf7e05762f198d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:06 +0000
Subject: [PATCH 4/8] fix: an ERROR recovered at the end of input covers no
 token

EOI was queued with index 0, so a rule such as F ::= ERROR panicked on empty
input and was handed the first token of the input otherwise.
---
 parser/src/iter.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index c5f7454..a2dabf8 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -1,7 +1,7 @@
 use std::collections::{HashSet, VecDeque};
 use std::error::Error;
 use std::fmt::{Display, Formatter};
-use std::ops::RangeInclusive;
+use std::ops::Range;
 
 use enum_index::EnumIndex;
 
@@ -54,7 +54,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                     symbols.push(symbol);
                 } else {
-                    buffer.push_back((TerminalSymbol::EOI, 0));
+                    buffer.push_back((TerminalSymbol::EOI, symbols.len()));
                 }
             }
             let (symbol, symbol_index) = buffer.front().unwrap();
@@ -74,7 +74,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let (state, mut rule_symbols): (Vec<_>, Vec<_>) = stack.drain(stack.len() - parser.rules[*rule].symbols.len()..).unzip();
                     let first_index: usize = rule_symbols
                         .iter()
-                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, RangeInclusive<usize>>, _)>| match symbol {
+                        .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, Range<usize>>, _)>| match symbol {
                             SymbolInternal::NonTerminal((_, i)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
@@ -145,7 +145,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-                                    error_head = *range.start();
+                                    error_head = range.start;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::EOI, _)) => {}
                             }
@@ -160,7 +160,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         buffer.pop_front();
                     }
                     if let Some(Action::Shift(s)) = parser.action_table.get(&current_state).unwrap().get(&TerminalSymbol::Error(())) {
-                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..=tail), 0))));
+                        stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..symbols.len().min(tail + 1)), 0))));
                         current_state = *s;
                     } else {
                         unreachable!()
-- 
2.43.0


From ba4ab4d5a75d457a283e95ae0cad22e29c9d3bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:06 +0000
Subject: [PATCH 5/8] fix: backtracking over an empty non-terminal no longer
 loses the token after it

A non-terminal without tokens was recorded as starting behind the lookahead that
triggered its reduction, so error recovery that discarded it skipped that token.
---
 parser/src/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index a2dabf8..fd2245f 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -79,7 +79,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
-                        .unwrap_or(symbols.len());
+                        .unwrap_or(*symbol_index);
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
-- 
2.43.0


From 949723c29275e4228306ff60439390f6aaf26f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:29 +0000
Subject: [PATCH 6/8] fix: tokens skipped by an earlier recovery stay in the
 slice of the ERROR replacing it

When a non-terminal that begins with ERROR was itself given up, the tokens its
ERROR stood for were in no slice at all.
---
 parser/src/iter.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index fd2245f..9066f30 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -75,11 +75,16 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     let first_index: usize = rule_symbols
                         .iter()
                         .find_map(|symbol: &SymbolInternal<_, (TerminalSymbol<_, Range<usize>>, _)>| match symbol {
-                            SymbolInternal::NonTerminal((_, i)) => Some(*i),
+                            SymbolInternal::NonTerminal((_, i, _)) => Some(*i),
                             SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                             _ => None,
                         })
                         .unwrap_or(*symbol_index);
+                    let head_index = match rule_symbols.first() {
+                        Some(SymbolInternal::NonTerminal((_, _, i))) => *i,
+                        Some(SymbolInternal::Terminal((TerminalSymbol::Error(range), _))) => range.start,
+                        _ => first_index,
+                    };
                     let mut rule_symbols = {
                         let mut rule_symbols_ = Vec::new();
                         let all_symbols = &symbols;
@@ -87,7 +92,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         let mut symbols_index = 0;
                         for symbol in rule_symbols.iter_mut() {
                             let symbol = match symbol {
-                                SymbolInternal::NonTerminal((n, _)) => Symbol::NonTerminal(n),
+                                SymbolInternal::NonTerminal((n, _, _)) => Symbol::NonTerminal(n),
                                 SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
                                     let (symbol, follow) = symbols[*i - symbols_index..].split_first().unwrap();
                                     symbols = follow;
@@ -104,7 +109,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         rule_symbols_
                     };
                     current_state = state.first().copied().unwrap_or(current_state);
-                    let reduced_symbol = SymbolInternal::NonTerminal(((parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?, first_index));
+                    let reduced_symbol = SymbolInternal::NonTerminal(((parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?, first_index, head_index));
                     stack.push((current_state, reduced_symbol));
                     current_state = *parser.goto_table.get(&current_state).unwrap().get(&parser.rules[*rule].non_terminal).unwrap();
                     if error_recovery_state.contains(rule) {
@@ -112,7 +117,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     }
                 }
                 Some(Action::Accept) => {
-                    if let Some((_, SymbolInternal::NonTerminal((symbol, _)))) = stack.pop() {
+                    if let Some((_, SymbolInternal::NonTerminal((symbol, _, _)))) = stack.pop() {
                         return Ok(symbol);
                     } else {
                         unreachable!()
@@ -141,7 +146,11 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                         if let Some((state, symbol)) = stack.pop() {
                             current_state = state;
                             match symbol {
-                                SymbolInternal::NonTerminal((_, i)) | SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
+                                SymbolInternal::NonTerminal((_, i, h)) => {
+                                    head = i;
+                                    error_head = h;
+                                }
+                                SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => {
                                     head = i;
                                 }
                                 SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => {
-- 
2.43.0


From 6ca646e61d61c6d7646d6676e9e42db3b926e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:42 +0000
Subject: [PATCH 7/8] fix: recovery terminates when an ERROR rule can directly
 follow its own ERROR

S ::= ERROR S | a kept inserting ERROR in front of the same token until memory ran out.
---
 parser/src/iter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/iter.rs b/parser/src/iter.rs
index 9066f30..4da5ed8 100644
--- a/parser/src/iter.rs
+++ b/parser/src/iter.rs
@@ -48,6 +48,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
         let mut buffer = VecDeque::new();
         let mut stack = Vec::new();
         let mut error_recovery_state = HashSet::new();
+        let mut error_inserted_state = HashSet::new();
         loop {
             if buffer.is_empty() {
                 if let Some(symbol) = iter.next() {
@@ -69,6 +70,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     stack.push((current_state, symbol));
                     current_state = *state;
                     buffer.pop_front();
+                    error_inserted_state.clear();
                 }
                 Some(Action::Reduce(rule)) => {
                     let (state, mut rule_symbols): (Vec<_>, Vec<_>) = stack.drain(stack.len() - parser.rules[*rule].symbols.len()..).unzip();
@@ -126,11 +128,13 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                 None => {
                     let is_eoi = matches!(symbol, TerminalSymbol::EOI);
                     let mut backtracked = false;
+                    // a state that already put an ERROR in front of this symbol would do so forever
+                    let mut can_insert = error_inserted_state.insert(current_state);
                     let tail = *symbol_index;
                     let mut head = tail;
                     let mut error_head = head;
                     loop {
-                        if !is_eoi || !backtracked {
+                        if can_insert && (!is_eoi || !backtracked) {
                             if let Some(error_rules) = parser.error_rules.get(&current_state) {
                                 if error_recovery_state.is_empty() {
                                     error_recovery_state = error_rules.clone();
@@ -143,6 +147,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                             }
                         }
                         backtracked = true;
+                        can_insert = true;
                         if let Some((state, symbol)) = stack.pop() {
                             current_state = state;
                             match symbol {
@@ -167,6 +172,7 @@ impl<I: IntoIterator, N, E> Parse<N, E> for I
                     }
                     if backtracked {
                         buffer.pop_front();
+                        error_inserted_state.clear();
                     }
                     if let Some(Action::Shift(s)) = parser.action_table.get(&current_state).unwrap().get(&TerminalSymbol::Error(())) {
                         stack.push((current_state, SymbolInternal::Terminal((TerminalSymbol::Error(head.min(error_head)..symbols.len().min(tail + 1)), 0))));
-- 
2.43.0


From a1022baec381bbff4359111122a2cc184e3a4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:46 +0000
Subject: [PATCH 8/8] fix: CharRange hashes by its start, as it compares and
 borrows

Equal CharRanges (same start, different end) had different hashes, and none had
the hash of the u32 it borrows as.
---
 tokenizer/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tokenizer/src/lib.rs b/tokenizer/src/lib.rs
index 6c34149..2a7bdd7 100644
--- a/tokenizer/src/lib.rs
+++ b/tokenizer/src/lib.rs
@@ -2,6 +2,7 @@ use std::borrow::Borrow;
 use std::cmp::Ordering;
 use std::convert::TryFrom;
 use std::fmt::Debug;
+use std::hash::{Hash, Hasher};
 use std::ops::Range;
 
 pub use crate::tokenizer::iter::{Tokenize, TokenizeIterator};
@@ -11,7 +12,7 @@ mod dfa;
 mod nfa;
 mod tokenizer;
 
-#[derive(Eq, Hash, Clone)]
+#[derive(Eq, Clone)]
 pub struct CharRange {
     pub range: Range<u32>,
 }
@@ -37,6 +38,12 @@ impl Borrow<u32> for CharRange {
     }
 }
 
+impl Hash for CharRange {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.range.start.hash(state)
+    }
+}
+
 impl PartialEq for CharRange {
     fn eq(&self, other: &Self) -> bool {
         self.range.start == other.range.start
-- 
2.43.0

