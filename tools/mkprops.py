#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
I = "include/mregex/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [I + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": I + w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})


prop("C01", "Exact matching decides the language of the pattern, and always terminates",
     "For every valid pattern and every finite input, matching the whole input terminates, and it reports a match exactly when the "
     "whole input is a word of the language the pattern denotes, whatever backtracking that needs.",
     ["programs", "inputs"], "all patterns built from literals, sets, sequences, alternations, groups and greedy or lazy quantifiers; all inputs",
     "The tests compile a few hundred pattern/input pairs as static assertions; the language of a pattern is an infinite set and wrong "
     "backtracking shows only for particular combinations of nested operators and inputs.",
     ["ast/nodes/sequence.hpp", "ast/nodes/alternation.hpp", "ast/nodes/quantifiers/repetition.hpp",
      "ast/nodes/quantifiers/fixed_repetition.hpp", "ast/traits.hpp", "regex_methods.hpp", "utility/continuations.hpp"],
     [("continuation-passing matchers", "ast/nodes/sequence.hpp"), ("empty-iteration guard", "ast/nodes/quantifiers/repetition.hpp"),
      ("whole-input continuation", "regex_methods.hpp")],
     ["regex<P>::match(begin, end).matched()"])

prop("C02", "Prefix match and search return the leftmost, highest-priority match",
     "For every pattern and input, search reports the match with the smallest starting position, and among the matches starting there both "
     "search and prefix matching report the one that comes first in backtracking order: earlier alternatives first, greedy quantifiers "
     "longest first, lazy quantifiers shortest first. If no match exists at any (for prefix matching: at the first) position, no match is reported.",
     ["programs", "inputs"], "all patterns and inputs, including matches that start or end at the very end of the input",
     "Which of several possible matches is chosen depends on every combination of operator order and input; tests fix a handful of them.",
     ["regex_methods.hpp", "ast/nodes/alternation.hpp", "ast/nodes/quantifiers/repetition.hpp", "ast/nodes/sequence.hpp"],
     [("search loop over starting positions", "regex_methods.hpp"), ("order in which alternatives and iterations are tried", "ast/nodes/quantifiers/repetition.hpp")],
     ["search(...)/match_prefix(...): matched(), begin(), end()"])

prop("C03", "Groups report what they captured on the successful path, and nothing else",
     "Groups are numbered by their opening parenthesis from left to right across the whole pattern, and a named group is found under both its number and its name. "
     "After a successful match every group holds the text of its last iteration on the path that succeeded, group 0 holds the whole match, and a "
     "group that took no part in that path is empty; after a failed match every group is empty.",
     ["programs", "inputs"], "all nestings of groups in sequences, alternations, quantifiers, lookarounds and atomic groups; all inputs",
     "Captures are mutated during backtracking, so a wrong value needs a specific failed attempt before the successful one; the tests read "
     "captures of a few patterns only.",
     ["ast/nodes/capture.hpp", "ast/indexing.hpp", "ast/traits.hpp", "regex_capture_storage.hpp", "regex_methods.hpp", "match_result.hpp"],
     [("capture written before the continuation and undone when it fails", "ast/nodes/capture.hpp"), ("preorder numbering", "ast/indexing.hpp"),
      ("names listed in preorder", "ast/traits.hpp")],
     ["group<N>(), group<\"name\">(), structured bindings of results"],
     [("captures", "spans of all groups for the current attempt", I + "regex_match_context.hpp")])

prop("C04", "A backreference matches exactly the text its group last captured",
     "A numeric or named backreference matches at a position exactly when the text there equals what the group most recently captured on the current path "
     "(ignoring ASCII case under icase), and consumes that text; a group that captured nothing matches the empty text. "
     "This holds inside loops, alternations, lookarounds (in either direction) and before, after or inside the group itself, and for group numbers of any number of digits.",
     ["programs", "inputs"], "all placements of backreferences and groups, all captured texts and all inputs, with and without icase",
     "The comparison has to be right for every captured length and every mismatch position, and across every rollback of the captures.",
     ["ast/nodes/terminals/backref.hpp", "utility/distance.hpp", "utility/reversed_range_view.hpp", "grammar/backrefs.hpp", "ast/nodes/capture.hpp"],
     [("lookup by number or name, remaining-length test, element-wise comparison", "ast/nodes/terminals/backref.hpp")],
     ["match/match_prefix/search of patterns with \\N and \\k<name>"])

prop("C05", "Quantifiers accept exactly the iteration counts within their bounds",
     "An expression quantified by {m}, {m,}, {m,n}, *, + or ? is matched at least m and at most n times, in greedy, lazy and possessive form, for every kind of "
     "quantified expression and every bound; greedy takes as many iterations and lazy as few as the rest of the pattern allows.",
     ["programs", "inputs", "configurations"], "all bounds m <= n (and unbounded), all three modes, with and without the unroll flag, all kinds of quantified expression, all input lengths",
     "Each bound and each kind of quantified expression instantiates different code; tests use a few small bounds.",
     ["ast/nodes/quantifiers/repetition.hpp", "ast/nodes/quantifiers/fixed_repetition.hpp", "symbols/quantifiers.hpp", "grammar/quantifiers.hpp", "utility/distance.hpp"],
     [("counted loops and recursion over symbolic bounds", "ast/nodes/quantifiers/repetition.hpp"), ("bound arithmetic", "symbols/quantifiers.hpp"),
      ("parsing of bounds", "grammar/quantifiers.hpp")],
     ["match/match_prefix of quantified patterns"])

prop("C06", "Atomic groups and possessive quantifiers never give back what they matched",
     "Once an atomic group or a possessive repetition has matched, nothing later in the pattern can make it match differently: the rest of the pattern succeeds from "
     "the position its first, highest-priority match reached, or the whole element fails. Inside it, before it has matched, backtracking works as usual.",
     ["programs", "inputs"], "all bodies of atomic groups and possessive quantifiers, all contexts, all inputs",
     "The difference from ordinary repetition only shows for inputs on which giving back would have helped.",
     ["ast/nodes/quantifiers/fixed_repetition.hpp", "ast/nodes/quantifiers/repetition.hpp", "ast/build.hpp"],
     [("inner match run with an always-successful continuation", "ast/nodes/quantifiers/fixed_repetition.hpp"), ("possessive loop", "ast/nodes/quantifiers/repetition.hpp")],
     ["match/match_prefix/search of patterns with (?>...) and X*+, X++, X?+, X{m,n}+"])

prop("C07", "Lookarounds test the surrounding input without consuming it",
     "A lookahead succeeds at a position exactly when its expression matches some text starting there, a lookbehind exactly when its expression matches some text ending there "
     "(for arbitrary expressions of any length), and the negative forms exactly when the positive form fails; none of them moves the position or is limited by where the current match started. "
     "Lookarounds may be nested in each other, quantified and contain anchors, groups and backreferences, and still mean the same.",
     ["programs", "inputs"], "all expressions inside all four lookarounds, nested to any depth, at all positions of all inputs",
     "Lookbehind mirrors the expression and the iteration direction; every construct has to be mirrored correctly on its own and in combination.",
     ["ast/inversion.hpp", "ast/transform.hpp", "ast/predicates/lookaround_predicate.hpp", "ast/predicates/negate.hpp", "ast/nodes/assertion.hpp", "ast/nodes/negated.hpp"],
     [("mirroring of the expression", "ast/inversion.hpp"), ("matching on reversed iterators", "ast/predicates/lookaround_predicate.hpp")],
     ["match/match_prefix/search of patterns with lookarounds"])

prop("C08", "Anchors and word boundaries hold exactly at their documented positions",
     "^ holds at the beginning of the input and $ at its end, and under multiline also right after, respectively right before, every \\n or \\r; \\A and \\Z hold only at the ends of the input under every flag. "
     "\\b holds exactly between a word character and a non-word character or end of the input, and \\B exactly where \\b does not.",
     ["programs", "inputs", "configurations"], "all positions of all inputs over all bytes, all flags, anchors anywhere in a pattern including inside lookarounds and in continued searches",
     "Whether an anchor holds depends on both neighbours of the position and on the flags, for each of 256 byte values on either side.",
     ["ast/predicates/anchor_predicates.hpp", "ast/nodes/terminals/anchors.hpp", "ast/inversion.hpp"],
     [("position predicates", "ast/predicates/anchor_predicates.hpp")],
     ["match/match_prefix/search of patterns with ^ $ \\A \\Z \\b \\B"])

prop("C09", "Every character element accepts exactly its documented set of bytes",
     "A literal, escape, hexadecimal escape, character class, wildcard, set, range or negated set matches exactly one input byte, and accepts exactly the bytes documented for it among all 256 values "
     "(ranges compare bytes as unsigned). Under icase ASCII letters, and only they, also match their other case, and a negated set rejects exactly what the set accepts; under dotall the wildcard accepts every byte.",
     ["programs", "inputs", "configurations"], "all single-character elements, all 256 byte values, all combinations of icase and dotall",
     "There are 256 input bytes per element and thousands of elements; tests try a few letters.",
     ["ast/nodes/terminals/literal.hpp", "ast/nodes/terminals/range.hpp", "ast/nodes/terminals/wildcard.hpp", "ast/nodes/set.hpp", "ast/nodes/negated.hpp",
      "utility/char_traits.hpp", "ast/astfwd.hpp", "grammar/escapes.hpp", "grammar/hexadecimal.hpp", "ast/build.hpp"],
     [("per-character predicates", "ast/nodes/terminals/range.hpp"), ("character classification", "utility/char_traits.hpp")],
     ["match of one-byte inputs, and of the same elements inside larger patterns"])

prop("C10", "Flags change exactly what they document, however they are combined",
     "Each flag has its documented effect and no other, for every combination, order and repetition of flags and whether given with the pattern or added later; clearing removes all of them. "
     "The unroll flag never changes any result, and ungreedy exchanges greedy and lazy quantifiers and leaves possessive ones alone.",
     ["programs", "configurations", "inputs"], "all 32 flag subsets in every order and with repetitions, on patterns that exercise every construct, all inputs",
     "Flags select different code for every node; tests set one flag on a few patterns.",
     ["regex_flags.hpp", "regex.hpp", "xpr/flags.hpp", "ast/nodes/quantifiers/repetition.hpp", "ast/nodes/quantifiers/fixed_repetition.hpp"],
     [("flag membership test", "regex_flags.hpp"), ("add_flags / clear_flags", "regex.hpp")],
     ["results of the same pattern under different flag lists"])

prop("C11", "Results are the same for every iterator category, and access stays in bounds",
     "For the same characters, matching through forward, bidirectional, random-access or contiguous iterators, a pair of iterators into the middle of a larger sequence, or any overload taking a range, "
     "gives the same result. No operation ever dereferences the end, moves outside [begin, end], writes to the input, or uses an operation its iterator category does not provide.",
     ["inputs", "programs"], "all patterns allowed for the category, all inputs, every iterator category and every range overload",
     "Each category selects different overloads; the tests almost only use string literals, where reading one past the end goes unnoticed.",
     ["utility/distance.hpp", "ast/nodes/sequence.hpp", "ast/nodes/quantifiers/fixed_repetition.hpp", "ast/nodes/quantifiers/repetition.hpp",
      "ast/nodes/terminals/backref.hpp", "ast/predicates/anchor_predicates.hpp", "ast/predicates/lookaround_predicate.hpp", "regex.hpp", "utility/concepts.hpp"],
     [("category-specific overloads", "ast/nodes/sequence.hpp"), ("remaining-length tests", "utility/distance.hpp")],
     ["results and every iterator operation performed"])

prop("C12", "Tokenizing and find-all yield exactly the successive matches, then stop",
     "A tokenizer yields the matches that start one after the other where the previous one ended, and a searcher the successive leftmost matches, each evaluated with the whole input as context. "
     "Iteration ends at the first position without a match, or right after the first empty match, which is still reported, and stays ended; a range contains exactly the results its generator reports before the end. "
     "Generators and ranges are lazy single-pass objects: any order of calls, comparisons, copies and interleavings observes the same sequence.",
     ["histories", "inputs", "programs"], "all patterns and inputs, all sequences of operations on generators and ranges, including after the end",
     "It is a protocol over operation histories; tests iterate a few inputs from start to end once.",
     ["match_result_generator.hpp", "utility/input_range_adapter.hpp", "regex.hpp", "regex_methods.hpp"],
     [("generator state machine", "match_result_generator.hpp"), ("range adapter caching the current result", "utility/input_range_adapter.hpp")],
     ["tokenizer/searcher: next(), operator(), active(); tokenize/find_all: begin(), end(), ++, *, comparison"],
     [("position and active flag", "where the next match starts and whether iteration goes on", I + "match_result_generator.hpp")])

prop("C13", "The parser accepts exactly the documented grammar and locates the first error",
     "A pattern compiles exactly when it belongs to the documented grammar; every other string is rejected at compile time. "
     "The reported error position is the length of the longest prefix that can still be completed to a valid pattern.",
     ["programs"], "all strings over the metacharacters and ordinary characters, and long patterns",
     "Acceptance is decided per string; tests check about two hundred strings.",
     ["grammar/grammar.hpp", "grammar/quantifiers.hpp", "grammar/escapes.hpp", "grammar/names.hpp", "grammar/hexadecimal.hpp", "grammar/backrefs.hpp", "parser/parser.hpp", "parser/state.hpp", "parser/lexer.hpp"],
     [("LL(1) rule table", "grammar/grammar.hpp"), ("compile-time parser automaton", "parser/parser.hpp")],
     ["parser<P>::accepted, parser_verdict<P>"])

prop("C14", "An accepted pattern means what the documented syntax says",
     "Every accepted pattern string behaves as the expression the documented syntax assigns to it: quantifiers bind to the preceding element, sequences bind tighter than alternations, groups override both, "
     "characters without a special meaning in their place stand for themselves, and escapes, sets and literal braces are read as documented.",
     ["programs", "inputs"], "all accepted strings over the metacharacters up to a length, all inputs",
     "Precedence and scope errors show only in particular strings; tests compare the structure of about a hundred.",
     ["grammar/grammar.hpp", "grammar/quantifiers.hpp", "ast/build.hpp", "parser/parser.hpp", "symbols/actions.hpp"],
     [("semantic actions", "ast/build.hpp"), ("rule table", "grammar/grammar.hpp")],
     ["match/search of every accepted string"])

prop("C15", "Meaningless patterns fail to compile, meaningful ones never do",
     "A pattern with a backreference to a group number or name that is not defined, a repetition whose lower bound exceeds its upper bound, or a range whose first character is greater than its last is a compile-time error when used. "
     "Asking a result for a group it does not have is a compile-time error too; every syntactically valid pattern without such a defect compiles and can be used.",
     ["programs"], "all backreference numbers and names against all group layouts, all bound pairs, all range bounds",
     "Tests cannot contain code that must not compile, so none of the rejections is tested at all.",
     ["ast/nodes/quantifiers/repetition.hpp", "ast/nodes/terminals/range.hpp", "ast/nodes/terminals/backref.hpp", "match_result.hpp", "parser/parser.hpp", "symbols/quantifiers.hpp"],
     [("static assertions on bounds, ranges and group numbers", "ast/nodes/quantifiers/repetition.hpp"), ("tuple lookup of captures", "ast/nodes/terminals/backref.hpp")],
     ["the compiler's verdict on a program that uses the pattern"])

prop("C16", "Expressions built from the C++ API behave as the equivalent pattern string",
     "Every expression composed with the expression API - functions, terminals, operators and embedded pattern strings, in any nesting and with any positive number of operands - gives the same results as the equivalent pattern string, "
     "and can be given the same flags.",
     ["programs", "inputs"], "all compositions of API functions and operators up to a depth, all inputs",
     "The API builds and flattens syntax trees for every arity and nesting; tests cover each function once or twice.",
     ["xpr/components.hpp", "xpr/adapters.hpp", "xpr/operators.hpp", "xpr/flags.hpp", "xpr/providers.hpp"],
     [("tree wrapping and flattening", "xpr/adapters.hpp"), ("API functions", "xpr/components.hpp")],
     ["match/match_prefix/search of expression objects"])

prop("C17", "Result objects faithfully expose the match through every accessor",
     "Every way of reading a result - by number, by name, by structured binding, iteration, transformation, conversion to a string, optional, boolean or stream, view or owning copy, from any value category - "
     "gives the same matched state and group contents. Owning results, including those of matching a temporary, stay valid and unchanged after the input is gone, and copies are independent.",
     ["histories", "inputs", "programs"], "all accessors in all value categories on matched and unmatched results, all sequences of copy, move and conversion up to a depth",
     "Tests read a few accessors on string literals that never expire.",
     ["match_result.hpp", "regex_capture.hpp", "regex_capture_storage.hpp", "utility/tuple.hpp", "utility/type_traits.hpp", "regex.hpp"],
     [("deep copy of captures", "match_result.hpp"), ("overload selection for expiring ranges", "regex.hpp")],
     ["all public members of results and captures"])

prop("C18", "Compile-time and run-time evaluation give the same results",
     "Every operation can be evaluated in a constant expression, without undefined behaviour, and yields there exactly what it yields at run time for the same pattern, flags and input.",
     ["inputs", "programs", "configurations"], "all patterns of a space covering every construct, all inputs up to a length, in both evaluation modes and on several iterator types",
     "The tests only run at compile time and only on a few inputs, so a run-time-only difference is invisible to them.",
     ["regex.hpp", "regex_methods.hpp", "ast/nodes/sequence.hpp", "ast/nodes/quantifiers/repetition.hpp", "match_result_generator.hpp", "utility/char_traits.hpp"],
     [("all matching functions are constexpr", "regex.hpp")],
     ["results computed in constexpr context and at run time"])

prop("C19", "Operations are pure: results do not depend on earlier or concurrent calls",
     "The result of an operation depends only on the pattern, its flags and the input: any sequence or interleaving of operations, on the same or on different patterns, inputs, generators and threads, "
     "gives each operation the result it gives alone.",
     ["histories", "schedules"], "all sequences of operations up to a length over a set of patterns and inputs, all interleavings of generator steps, and concurrent calls",
     "Tests evaluate each operation in isolation at compile time.",
     ["regex.hpp", "regex_match_context.hpp", "match_result_generator.hpp", "regex_methods.hpp"],
     [("fresh match context per call", "regex.hpp"), ("no mutable static state", "regex_match_context.hpp")],
     ["results of operations inside histories compared with the same operation alone"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
