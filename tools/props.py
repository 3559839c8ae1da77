#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TI, TT, TD, TN, TL = "tokenizer/src/tokenizer/iter.rs", "tokenizer/src/tokenizer.rs", "tokenizer/src/dfa.rs", "tokenizer/src/nfa.rs", "tokenizer/src/lib.rs"
PP, PI, PS, PL = "parser/src/parser.rs", "parser/src/iter.rs", "parser/src/syntax.rs", "parser/src/lib.rs"
TG, PG, EX = "tokenizer_generator/src/lib.rs", "parser_generator/src/lib.rs", "example/src/main.rs"
MC = "model_checking"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level=MC):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level))

prop("C01", "Token stream is longest match, earliest pattern first",
 "Tokenizing any input yields, one after another, the longest prefix of the remaining input that some pattern matches, produced by the earliest-listed pattern that matches that prefix, with exactly that text. The stream ends exactly where no pattern matches (in particular at the end of the input).",
 ["inputs", "configurations"], "every list of supported patterns, every input text",
 "The tests tokenize three sample programs with one pattern list; backtracking over long failed lookahead, ties between patterns and inputs ending inside a partial match are reached only by chance.",
 [TI, TT, TD], [("TokenizeIterator::next: remembers the last accepting prefix, requeues the rest", TI), ("subset construction keeps the smallest accepting pattern", TD)],
 ["items yielded by tokenize/tokenize_with"],
 "exhaustive enumeration of pattern lists x input strings, real iterator vs. reference automaton", "all pattern lists and inputs within the listed bounds are executed on the real code; the reference matcher (Glushkov automaton, checked against denotational semantics on every run) is trusted")
prop("C02", "Each pattern matches exactly its regular language",
 "For every supported pattern list, the built tokenizer recognises a string as a complete token of a pattern if and only if ordinary regular-expression semantics says that this pattern (and no earlier one) matches the whole string. This holds for strings of any length, over all Unicode characters, for all nestings of literals, classes, concatenation, alternation, ?, *, + and counted repetition.",
 ["inputs", "configurations"], "every supported pattern list; every string over all code points",
 "A handful of patterns are pinned to hand-written automata; the interaction of nested repetitions, overlapping ranges and minimisation has unboundedly many cases.",
 [TN, TD, TT], [("NFA construction per operator", TN), ("range splitting, subset construction, minimisation", TD)],
 ["automaton of the built tokenizer", "tokens yielded"],
 "explicit-state product exploration (built automaton x reference automaton, all code points), product traces replayed on the real iterator", "for each enumerated pattern list the product exploration covers strings of every length; the set of pattern lists is bounded")
prop("C03", "No input item is lost, duplicated or reordered",
 "Concatenating the items handed to the token constructors, in order, reproduces the input items exactly, up to the point where no pattern matches; every constructor also receives as text precisely the characters of its items. This holds for item types that carry extra data and cannot be copied, and for tokenizers passed by value or by reference.",
 ["inputs", "configurations"], "every pattern list, every input item sequence",
 "Tests check positions in three sample inputs; items are requeued after failed lookahead of any length, which those inputs barely exercise.",
 [TI], [("queue of items read ahead, put back in order", TI)], ["text and item vector passed to each constructor"],
 "exhaustive enumeration of pattern lists x inputs with uniquely numbered, non-clonable items", "bounded pattern lists and inputs, all executed on the real code")
prop("C04", "Tokenizing reads no further ahead than necessary",
 "Before a token is delivered, or the stream ends because nothing matches, the source is read at most up to the first item after which no pattern could match any longer prefix, and what was read ahead is not read again. Hence tokens can be obtained from an interactive or endless source as soon as they are decided.",
 ["inputs", "configurations", "histories"], "every pattern list, every input, every prefix of the stream of tokens requested",
 "No test observes how much of the source is consumed.",
 [TI, TD], [("next() stops at the first missing transition", TI), ("automata without dead states", TD)], ["number of pulls from the source before each token"],
 "exhaustive enumeration with a pull-counting source against the reference automaton's dead states", "bounded pattern lists and inputs, including endless sources")
prop("C05", "Overlapping patterns are always and only then warned about",
 "Building reports a conflict warning if and only if some string is matched in full by two different patterns. Every pattern sharing a string with another one is named in a warning, and every warning names two different patterns that share a string.",
 ["configurations"], "every supported pattern list",
 "One list of three patterns is tested; whether two regular languages intersect is a property of all strings.",
 [TD, TT], [("EndConflict recorded while assigning accepting patterns to states", TD)], ["warnings returned by build"],
 "explicit-state intersection of reference automata for all enumerated pattern lists vs. warnings of the real build", "intersection is decided for all strings; pattern lists are bounded")
prop("C06", "Building and tokenizing never panic; failures are reported as errors",
 "Building a tokenizer from any list of pattern strings returns a tokenizer, or an error when a pattern is not valid or uses an unsupported feature (anchors, word boundaries, byte-level matching); it never panics and never silently drops such a feature. Tokenizing any input with the result never panics, and yields finitely many tokens when no pattern matches the empty string.",
 ["inputs", "configurations"], "every list of pattern strings (valid or not), every input",
 "Two error cases are asserted in tests; syntactically odd patterns, empty lists and unsupported features nested inside other operators are not.",
 [TN, TT, TI], [("TryFrom<HirKind> returns errors for unsupported kinds", TN), ("build maps errors", TT)], ["Result of build", "panics", "termination"],
 "exhaustive enumeration of all short pattern strings over the meta-character alphabet (and pairs), classified independently with the regex parser", "all strings up to the length bound; regex-syntax (a dependency, not under test) decides validity")
prop("C07", "Tokenizers are deterministic and stateless",
 "Two tokenizers built from the same patterns yield identical tokens and the same set of warnings, whatever hash seed the process got and whatever was built before. A tokenizer can be used any number of times, interleaved with other uses of itself, and each use gives the result of a fresh tokenizer.",
 ["configurations", "histories", "inputs"], "every hash seed, every history and interleaving of uses, every input",
 "Each test process samples one hash seed and uses a tokenizer once or a few times in sequence.",
 [TD, TN, TI], [("hash-ordered construction of automata", TD), ("tokenizer is immutable while iterating", TI)], ["tokens and warnings per seed and per history"],
 "enumeration of hash orders (seed source interposed, all numberings of small automata reached), all interleavings of two iterators", "the per-process hash key is put under harness control; all state numberings are reached for automata up to 4 states, a fixed set of keys beyond")
prop("C08", "tokenizer! generates the same tokenizer as the run-time builder",
 "A tokenizer generated by the tokenizer! macro behaves, for every input, like the one built at run time from the same patterns and constructors in the same order: same tokens, same constructor arguments, same end of stream. This includes character types other than char and any number of patterns.",
 ["programs", "inputs"], "every macro invocation with a valid pattern list, every input",
 "Two invocations with the same three patterns are tested on three inputs.",
 [TG, TT], [("serialises the automaton into constructor code", TG)], ["tokens of the generated tokenizer"],
 "macro invocations generated for an enumerated family, compiled from the current tree, product exploration + exhaustive inputs vs. the reference", "bounded family of generated programs; all-strings comparison per program")
prop("C09", "A grammar built without warnings accepts exactly its language",
 "For a grammar without error rules that is built without warnings, parsing a token sequence succeeds if and only if the sequence is derivable from the start symbol; otherwise it returns the recovery-rule-not-found error. Token kinds the grammar never mentions are simply not accepted.",
 ["programs", "inputs"], "every grammar whose nonterminals all have rules, every token sequence",
 "Two expression grammars are parsed on about ten inputs; nullable symbols, left/right recursion and lookahead sets have unboundedly many combinations.",
 [PP, PI], [("canonical LR(1) construction (nullable, FIRST, closure, goto, tables)", PP), ("table-driven parse loop", PI)], ["Ok/Err of parse"],
 "exhaustive enumeration of all small grammars x all short inputs vs. a derivation-counting oracle; LR state graphs of larger grammars walked exhaustively", "bounded grammars and inputs; oracle computed from the definition of derivation, independent of LR theory")
prop("C10", "Reducers are called exactly as the derivation tree prescribes",
 "When parsing succeeds without error recovery, the reducers called are exactly one per node of the input's derivation tree, children before parents and left to right, each receiving for every symbol of its rule the very token at that position or the value returned for that child. The value returned by the reducer of the root is the result.",
 ["programs", "inputs"], "every warning-free grammar, every derivable token sequence",
 "Tests compare a few final trees of two grammars; argument mix-ups with equal-looking tokens or nullable children are invisible there.",
 [PI, PS], [("reduction collects the rule's symbols from the stack", PI)], ["sequence of reducer calls with arguments", "result"],
 "exhaustive enumeration of small grammars x inputs, recorded reducer calls vs. the unique derivation tree", "bounded grammars and inputs; tokens carry identities, values carry the serial number of the call that made them")
prop("C11", "Warnings are reported exactly for grammars that are not LR(1)",
 "Building a parser returns warnings if and only if the grammar has an LR(1) conflict (shift/reduce, reduce/reduce, or accept/reduce). In particular an ambiguous grammar, one in which some token sequence has two derivation trees, is never built without a warning, and every rule blamed for a reduction in a warning takes part in a conflict.",
 ["programs"], "every grammar whose nonterminals all have rules",
 "No test looks at a warning; ambiguity is a statement about all inputs.",
 [PP], [("conflict detection while filling the action table", PP)], ["warnings returned by the constructor"],
 "independent canonical LR(1) construction for all small grammars (explicit state), plus bounded ambiguity search", "bounded grammars; the reference construction is itself checked against the derivation oracle")
prop("C12", "Conflicts are resolved by fixed rules",
 "With a conflicting grammar the parser still behaves deterministically: it prefers shifting to reducing, accepting at the end of input to reducing, and among several reductions the rule listed first. This determines results and reducer calls for every input.",
 ["programs", "inputs"], "every conflicting grammar, every rule order, every token sequence on which this strategy terminates",
 "No test uses a conflicting grammar.",
 [PP, PI], [("order in which actions are entered into the table", PP)], ["reducer calls and result on conflicting grammars"],
 "exhaustive enumeration of small grammars in all rule orders x inputs vs. reference LR(1) driver with these rules", "bounded grammars and inputs; runs on which the strategy itself never terminates are excluded (counted)")
prop("C13", "An error returned by a reducer stops parsing and is returned unchanged",
 "If any reducer call returns an error, parsing returns that very error immediately: no further reducer is called and no further token is read. The returned error displays as the error of the reducer does and has it as its source.",
 ["programs", "inputs", "fault_sequences"], "every grammar, every input, every reducer call as the point of failure",
 "One test has one failing reducer at one place.",
 [PI], [("map_err(ErrorInReducer)? in the reduce step; Display and Error for ParseError", PI)], ["result, reducer calls and tokens read after the fault"],
 "fault enumeration: every reducer call of every explored run is made to fail once", "all fault points of all bounded runs, including runs with error recovery")
prop("C14", "Syntax errors are detected at the first impossible token",
 "With a warning-free grammar without error rules, parsing reads no token beyond the first one that makes the input read so far impossible to complete, and reads every token once and in order. No reducer is called on account of the offending token.",
 ["programs", "inputs"], "every warning-free grammar with productive nonterminals, every token sequence",
 "No test observes how much input is consumed or which reducers ran before an error.",
 [PI, PP], [("one token of lookahead, canonical lookahead sets", PI)], ["number of tokens pulled", "reducer calls before the error"],
 "exhaustive enumeration of small grammars x inputs with a pull-counting source vs. an Earley-style viable-prefix oracle", "bounded grammars and inputs")
prop("C15", "Error rules do not affect valid input",
 "If a grammar with error rules is built without warnings, then every token sequence derivable without error rules is parsed exactly as by the same grammar with its error rules removed: same result, same reducer calls, no ERROR slice, no extra token read.",
 ["programs", "inputs"], "every warning-free grammar with error rules, every valid token sequence",
 "One grammar with error rules is tested on three valid inputs.",
 [PP, PI], [("ERROR as a terminal that never occurs in the input", PP)], ["reducer calls and result with and without error rules"],
 "exhaustive differential enumeration: grammar with and without its error rules on all short inputs", "bounded grammars and inputs")
prop("C16", "Recovery accounts for every token",
 "When parsing succeeds with error recovery, the tree's leaves in order match the input: tokens passed to reducers are in input order and not repeated, and every token that was skipped between two of them lies in the slice of an ERROR standing at that place. Every ERROR slice is a contiguous piece of the input that starts right after the preceding leaf (adjacent ERRORs aside) and is empty only at the end of the input.",
 ["programs", "inputs"], "every warning-free grammar with error rules, every token sequence",
 "Four recoveries are tested; recovery discards and re-reads tokens in patterns that depend on the whole parse history.",
 [PI], [("backtracking over the stack, re-queueing tokens, slice bounds", PI)], ["leaves of the final tree, slices handed to reducers"],
 "exhaustive enumeration of small grammars with ERROR x inputs, conservation invariant checked on every recovered tree", "bounded grammars and inputs; invariant independent of the recovery policy")
prop("C17", "Parsing always terminates without panicking",
 "Building a parser from any grammar whose nonterminals all have rules never panics. With a parser built without warnings, parsing any finite token sequence returns, with or without error rules, and never panics, whatever tokens it contains; the number of reducer calls is bounded by the size of the input and grammar.",
 ["programs", "inputs"], "every grammar, every token sequence",
 "About a dozen inputs are parsed in tests; recovery could loop or index out of range on others.",
 [PI, PP], [("each recovery step discards a token or moves to a new state", PI)], ["panics, termination, reducer call counts, memory"],
 "exhaustive enumeration of small grammars (with ERROR) x inputs under time, memory and call budgets", "bounded grammars and inputs; non-termination is detected by budgets far above any terminating run")
prop("C18", "Parsers are deterministic and stateless",
 "Parsers built from the same grammar behave identically (results, reducer calls, presence of warnings), whatever hash seed the process got. A parser can be reused: after any sequence of earlier parses, successful, failed or aborted by a reducer, each parse gives the result of a fresh parser.",
 ["configurations", "histories", "inputs"], "every hash seed, every history of earlier parses, every input",
 "Each test process samples one hash seed; reuse is tested on a few inputs.",
 [PP, PI], [("hash-ordered state numbering", PP), ("all parse state is local to one call", PI)], ["outcomes per seed and per history"],
 "enumeration of hash orders (seed source interposed) and of all two- and three-step histories", "all state numberings reached for grammars with up to 4 states, a fixed set of keys beyond")
prop("C19", "parser! generates the same parser as the run-time builder",
 "A parser generated by the parser! macro behaves, for every input, like the one built at run time from the same rules in the same order with the same start symbol: same results, same reducer calls, same recovery. This holds whatever order tokens and symbols are declared in, whatever their variant indices (different names standing for different variants), for named and quoted tokens, alternatives written with |, empty and ERROR rules.",
 ["programs", "inputs"], "every valid macro invocation, every input",
 "One invocation is tested on two inputs.",
 [PG, PP], [("serialises tables and rules into constructor code, maps declared names to variant indices", PG)], ["outcomes of the generated parser"],
 "macro invocations generated for an enumerated family, compiled from the current tree, exhaustive inputs vs. run-time parser and reference", "bounded family of generated programs")
prop("C20", "All ways of writing a grammar are equivalent",
 "Rules made from example values, from raw indices, or step by step with the rule builder are equal and give the same parser, whatever payload the example values carry; likewise for the two ways of naming the start symbol and the two ways of constructing the parser. Only the variant of a token or nonterminal matters, never its payload.",
 ["programs", "inputs", "configurations"], "every rule, every choice of construction calls and example payloads, every input",
 "One small syntax is compared field by field.",
 [PS, PP], [("enum_index of example values", PS)], ["equality of rules, outcomes of parsers"],
 "exhaustive enumeration of rules and grammars x construction styles, compared for equality and on all short inputs", "bounded rules, grammars and inputs")
prop("C21", "The example calculator computes the right value for every line",
 "Given any line, the calculator prints the value of the arithmetic expression under the usual precedence and left associativity (with +, -, *, /, parentheses, sqrt, signed numbers, decimal and exponent notation, ignoring other characters), or an error when the line is no expression. It answers each line independently, in order, and stops at the end of its input.",
 ["inputs", "histories"], "every sequence of input lines",
 "The example has no tests.",
 [EX, TI, PI], [("tokenizer, grammar and reducers of the example", EX)], ["lines printed by the example program"],
 "all token sequences up to a bound fed to the real binary, output compared with an independent evaluator", "bounded line length over the token alphabet; whole program executed")
prop("C22", "Error recovery follows the documented policy",
 "On a syntax error the parser resumes at the innermost point where an error rule is expected that agrees with the error rules already being recovered by (any, once such a rule has been completed): if that is the current point, ERROR is inserted in front of the offending token; otherwise what was parsed since that point is given up, its first token is discarded and the rest is parsed again behind ERROR. The ERROR slice extends from the first token given up to the token where the error was detected; at the end of the input ERROR can only be inserted at the current point, and if no such point exists parsing fails with the recovery-rule-not-found error.",
 ["programs", "inputs"], "every grammar with error rules, every token sequence",
 "Four recoveries of one grammar are tested.",
 [PI, PP], [("error branch of the parse loop", PI), ("error rules per state", PP)], ["result, reducer calls, ERROR slices, tokens read"],
 "exhaustive enumeration of small grammars with ERROR x inputs, real parser vs. reference model of the policy (all model traces replayed)", "bounded grammars and inputs; the reference model is an independent implementation of the statement")
prop("C23", "Public key types obey the equality, ordering and hashing contracts",
 "For character ranges, rules, symbols and terminal symbols: equality is an equivalence, ordering is total and agrees with equality, equal values have equal hashes, and character ranges order, compare and hash like the first code point they borrow as. Rules are equal exactly when they have the same nonterminal and symbols.",
 ["inputs", "configurations"], "all pairs and triples of values",
 "A dozen comparisons of character ranges are tested.",
 [TL, PS, PL], [("hand-written PartialEq/Ord/Hash/Borrow impls", TL)], ["results of ==, cmp, hash, borrow; lookups in ordered and hashed maps"],
 "exhaustive enumeration of all pairs and triples over small value domains", "bounded domains that contain every case the implementations distinguish")
prop("C24", "Tokenizer and parser compose lazily",
 "Feeding a tokenizer's output (optionally filtered or flattened) straight into a parser gives the same result as collecting the tokens first. No character is read beyond what is needed to deliver the last token the parser asks for (on a syntax error, the offending one), or to see that nothing matches any more.",
 ["inputs", "histories", "programs"], "every pair of tokenizer and grammar, every text",
 "No test connects the two crates.",
 [TI, PI], [("both sides are driven one item at a time", PI)], ["parse results and character pulls of the pipeline"],
 "exhaustive enumeration of texts through the composed pipeline vs. composed reference models", "bounded texts, several tokenizer/grammar pairs")
prop("C25", "Memory is used safely and given back",
 "Building, using, abandoning half-way and dropping a tokenizer or a parser touches only live memory and gives all of it back, however often it is done. Every input item, token, nonterminal value, reducer or constructor closure handed over or produced is dropped exactly once: nothing is alive after a token stream is abandoned except what the caller holds, nothing but the result after a parse (successful, failed or ended by a reducer's error), nothing at all after the tokenizer or parser is gone.",
 ["inputs", "configurations", "histories"], "every pattern list and grammar, every input, every point at which use is abandoned",
 "Both crates build cyclic automata from raw and reference-counted pointers; no test looks at leaks, double drops or dangling pointers, which only some pattern shapes produce.",
 [TN, TD, TI, PI], [("raw pointers between automaton nodes, weak edges", TN), ("raw pointers between DFA nodes", TD), ("read-ahead queue", TI), ("value stack and token buffer", PI)],
 ["memory accesses (address sanitizer)", "bytes allocated and not given back", "live counted values"],
 "exhaustive enumeration of pattern lists and grammars x inputs x points of abandonment, each executed on the real code under a memory-access monitor and with allocation and drop accounting", "bounded pattern lists, grammars and inputs; the accesses are judged by the address sanitizer, aliasing rules beyond that are not")
prop("C26", "A panic in the caller's code passes through and leaves nothing broken",
 "If the caller's source, mapping function, token constructor, reducer or enum_index panics, that very panic reaches the caller, none of the caller's code is called again on behalf of that use, and everything handed over or produced is dropped exactly once. Afterwards the tokenizer or parser gives the result of a fresh one for every input, however many such panics came before.",
 ["inputs", "configurations", "crash_points", "histories"], "every pattern list and grammar, every input, every call at which the caller's code can panic",
 "No test lets the caller's code panic; there is one fault point per call of each callback.",
 [TI, PI], [("token iteration calls source, mapping function and constructor", TI), ("parse loop calls source, enum_index and reducers", PI)],
 ["panic payloads, calls, live counted values, results afterwards"],
 "exhaustive fault injection: every call of every callback panics once, for enumerated pattern lists and grammars x inputs, followed by a complete use", "bounded pattern lists, grammars and inputs; all fault points of runs of up to 24 calls, a fixed selection beyond")

prop("C27", "Invalid macro invocations do not compile",
 "A tokenizer! invocation with a pattern that the run-time builder rejects (malformed, or an unsupported construct such as an anchor), at any position in the list, does not compile. Neither does a parser! invocation that names, anywhere in its rules or as its start symbol, a token or non-terminal that is not declared under exactly that name and kind ([A] and \"A\" are different), whose first rule begins with |, or either macro with a parameter list. The same invocation without the mistake compiles.",
 ["programs"], "every invocation of the two macros",
 "No test invokes the macros at all; a mistake accepted silently becomes a table for another language.",
 [TG, PG], [("patterns are built when the macro is expanded", TG), ("names are looked up in the declared tokens and symbols", PG)],
 ["whether the compiler accepts the invocation"],
 "exhaustive single-mistake enumeration over macro invocations (every position x every kind of mistake), each compiled with the real macros", "one mistake per invocation, at every position of one tokenizer shape and one grammar that has all constructs; the mistakes are a fixed list plus all short pattern strings (a fixed third of them in quick)")

with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="bash /verif/setup.sh",
    checks=[dict(property=p["id"], quick_cmd=f"bash /verif/check.sh {p['id']} quick", thorough_cmd=f"bash /verif/check.sh {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json", technique="model checking: " + p["technique"], level=p["level"], level_note=p["note"]) for p in P],
    not_applicable=[], notes="No hooks in /repo are needed: everything is observed through the public API. Known and fixed findings: known_findings.jsonl.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(P), "properties", max(len(p["title"]) for p in P))
