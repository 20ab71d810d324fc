#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EV = "include/ctre/evaluation.hpp"
prop("C01", "Matching never reads or moves outside the subject",
 "For every pattern construct and every subject, the matcher reads a subject position only when it is not the end, steps forward only from a position that is not the end, and steps or looks back only from a position that is not the beginning. This holds for every iterator kind, also inside lookbehinds and backreferences, and also when the subject is empty.",
 ["programs", "inputs"], "every pattern, every subject (every length and content), every iterator type",
 "A test runs a few patterns on a few short subjects, mostly in constant evaluation; an unguarded read needs a particular pattern at a particular position of a particular subject.",
 [EV, "include/ctre/wrapper.hpp", "include/ctre/iterators.hpp"],
 [("comparison with the end before each dereference", EV+": evaluate(list<CharacterLike,...>), any, match_string, assert_line_end, assert_subject_end_line, boundary, match_against_range"),
  ("comparison with the begin before looking back", EV+": assert_line_begin, boundary, not_boundary"),
  ("search loop stops at the end", "include/ctre/wrapper.hpp: search_method::exec")])
prop("C02", "Anchors and word boundaries hold exactly at their positions",
 "Begin and end anchors (subject, line, end-before-final-newline) succeed exactly at the positions their meaning names in the active line mode, and a word boundary succeeds exactly where one of the two neighbouring characters (none beyond the ends) is a word character and the other is not; the negated boundary succeeds exactly elsewhere. None of them consumes input, changes captures, or changes what follows.",
 ["programs", "inputs", "configurations"], "every subject, every position in it, both line modes, every continuation of the pattern",
 "Tests try a handful of positions; the property speaks of every position of every subject in both line modes.",
 [EV, "include/ctre/atoms.hpp"],
 [("assertion evaluation", EV+": assert_subject_begin/assert_subject_end/assert_subject_end_line/assert_line_begin/assert_line_end"),
  ("boundary evaluation", EV+": boundary, not_boundary")])
prop("C03", "Alternation is ordered and concatenation backtracks through it",
 "An alternation tries its options from left to right, each followed by the rest of the pattern, and the first option for which the whole rest succeeds decides the result; when an option fails, the position, the captures and the active modes are exactly those from before it was tried. A concatenation matches its parts one after another in pattern order, an empty part always matches without consuming, and a literal text matches exactly its characters in order.",
 ["programs", "inputs"], "every number and kind of alternatives and parts, every continuation, every subject and position",
 "Tests cover particular alternations on particular subjects, not every combination of alternatives, continuation and subject.",
 [EV],
 [("select", EV+": evaluate(list<select<...>>)"), ("sequence/empty/string", EV+": sequence, empty, match_string")])
prop("C04", "Repetitions respect their bounds and their preference order",
 "A repetition applies its body at least its minimum and at most its maximum number of times and is followed by the rest of the pattern from the position reached; a greedy one prefers more iterations and gives them back one by one when the rest fails, a lazy one prefers fewer and adds them one by one. An iteration beyond the minimum must consume input, the state of an abandoned iteration never leaks, and a repetition whose maximum is below its minimum never matches.",
 ["programs", "inputs"], "every bounds pair, body, continuation, subject and position; the loop count is unbounded",
 "Tests fix small bounds, concrete bodies and short subjects; the order of attempts for an arbitrary body and continuation is never sampled.",
 [EV, "include/ctre/actions/repeat.inc.hpp"],
 [("greedy", EV+": evaluate(list<repeat<A,B,...>>), evaluate_recursive"), ("lazy", EV+": evaluate(list<lazy_repeat<A,B,...>>)"), ("bounds", EV+": less_than, less_than_or_infinite")])
prop("C05", "Possessive repetitions and atomic groups never give anything back",
 "A possessive repetition takes as many iterations of its body as possible within its bounds, fails if it cannot reach its minimum, and then tries the rest of the pattern exactly once; an atomic group takes the first way its content matches, which may be empty, and tries the rest of the pattern exactly once. If that rest fails, the whole construct fails without trying anything shorter.",
 ["programs", "inputs"], "every bounds pair, body, continuation, subject and position",
 "That no other attempt is ever made is a statement about all continuations and subjects; tests check a few where a shorter attempt would be visible.",
 [EV, "include/ctre/actions/atomic_group.inc.hpp"],
 [("possessive", EV+": evaluate(list<possessive_repeat<A,B,...>>)"), ("atomic group", EV+": evaluate(list<atomic_group<...>>)")])
prop("C06", "Lookarounds consume nothing and look in the right direction",
 "A positive lookahead or lookbehind succeeds exactly when its content matches starting, respectively ending, at the current position, and a negative one exactly when it does not; in every case the rest of the pattern continues from the unchanged position. Captures made in a successful positive lookaround are kept, those from a negative one are not, and the content of a lookbehind is matched against the text before the position in reading order.",
 ["programs", "inputs"], "every content, continuation, subject, position, both polarities and directions, nesting included",
 "Tests check single examples per direction and polarity.",
 [EV, "include/ctre/rotate.hpp", "include/ctre/actions/look.inc.hpp"],
 [("lookaround evaluation", EV+": lookahead_positive/negative, lookbehind_positive/negative, end_lookahead_mark, end_lookbehind_mark"), ("mirroring of lookbehind content", "include/ctre/rotate.hpp: rotate_for_lookbehind"), ("construction", "include/ctre/actions/look.inc.hpp")])
prop("C07", "Reported match and captures are the ranges that took part in the match",
 "A successful result's whole-match range starts where the attempt started and ends where the pattern finished; each group reports the range of its last completed participation in the successful path, a group that did not participate is unmatched, and a failed attempt yields an empty result. Accessing a group by number, by name or by structured binding, and its begin, end, size, view and string, all describe that one range.",
 ["programs", "inputs"], "every pattern with groups, every subject, every access path",
 "Tests read a few groups of a few matches; a swapped or stale range shows only for particular group/continuation combinations.",
 ["include/ctre/return_type.hpp", EV],
 [("result object", "include/ctre/return_type.hpp: regex_results, captures, captured_content::storage"), ("capture nodes", EV+": capture, capture_with_name, numeric_mark, start_mark, end_mark, accept")])
prop("C08", "A backreference matches exactly a repetition of the captured text",
 "A reference to a group, by number or by name, fails when the group has not participated, and otherwise matches exactly when the subject continues with the captured text, character by character (ignoring ASCII case if and only if case-insensitive matching is active), and consumes exactly that text. A captured empty text matches everywhere without consuming anything.",
 ["programs", "inputs", "configurations"], "every captured text and subject, both case modes, numeric and named references",
 "Captured text and subject are unbounded; tests compare few short ones.",
 [EV, "include/ctre/atoms_characters.hpp"],
 [("comparison loop", EV+": match_against_range"), ("reference nodes", EV+": back_reference, back_reference_with_name"), ("character equality", "include/ctre/atoms_characters.hpp: is_same_char")])
prop("C09", "Every character class contains exactly its documented characters",
 "For every code point, a literal character, a range, a set, a negated set and each predefined class (digits, word, space, horizontal and vertical space, the POSIX classes, their negations, and any-character in both line modes) accepts it exactly when it belongs to the documented set. Sets are the union of their members, negation is the exact complement, and the answer does not depend on the character type of the subject wide enough to hold it.",
 ["inputs", "configurations"], "all 0x110000 code points, each predefined class, each character type, set nesting",
 "Tests probe single characters; off-by-one range edges, missing members and type-dependent comparisons remain invisible.",
 ["include/ctre/atoms_characters.hpp", "include/ctre/actions/named_class.inc.hpp", "include/ctre/actions/class.inc.hpp", "include/ctre/actions/set.inc.hpp"],
 [("predicates", "include/ctre/atoms_characters.hpp: match_char of character, char_range, set, negative_set, negate, enumeration"), ("class tables", "include/ctre/atoms_characters.hpp: word_chars, space_chars, ..."), ("class names", "include/ctre/actions/class.inc.hpp, named_class.inc.hpp")])
prop("C10", "Case-insensitive matching folds exactly the ASCII letters",
 "With case-insensitive matching active, a literal letter, text or range accepts a character exactly when the character or its other ASCII case would be accepted without it, and characters other than ASCII letters are unaffected; with case-sensitive matching active no folding happens. Negated sets are the complement of the folded set.",
 ["inputs", "configurations"], "all code points, every literal and range bounds, both case modes",
 "Tests try a few letters; ranges crossing letter blocks and non-letters next to them are not covered.",
 ["include/ctre/atoms_characters.hpp", EV],
 [("folding", "include/ctre/atoms_characters.hpp: character::match_char, char_range::match_char, is_ascii_alpha"), ("literal text", EV+": match_string")])
prop("C11", "Modes are set by entry point, modifiers and inline switches as written",
 "The line mode and case mode in force at the start are those of the entry point and its modifiers, where a later modifier overrides an earlier one of the same kind; an inline mode switch changes exactly its own mode for what follows it and leaves the other modes alone. Without any of them, matching is case-sensitive and single-line.",
 ["configurations", "programs"], "every entry point, every modifier list, every inline switch, in any order",
 "The combinations of entry points, modifiers and switches are many; tests use a few of them.",
 ["include/ctre/flags_and_modes.hpp", "include/ctre/wrapper.hpp", "include/ctre/actions/mode.inc.hpp", EV],
 [("flags construction", "include/ctre/flags_and_modes.hpp: flags"), ("inline switch", EV+": mode_switch; include/ctre/actions/mode.inc.hpp"), ("entry points", "include/ctre/wrapper.hpp: variable templates and multiline_* members")])
prop("C12", "The shipped parser table accepts exactly the documented grammar",
 "The parser table compiled into the library decides every pattern text exactly as the grammar file it is generated from does: the same texts are accepted, the same are rejected, and the same semantic actions happen in the same order. The grammar is deterministic: no state has two applicable rules for one character.",
 ["inputs"], "every pattern text of every length over every character",
 "Tests parse a finite list of patterns; the table has thousands of state/character entries, most never exercised.",
 ["include/ctre/pcre.gram", "include/ctre/pcre.hpp", "include/ctll/parser.hpp", "include/ctll/grammars.hpp"],
 [("table", "include/ctre/pcre.hpp: pcre::rule overloads"), ("LL(1) driver", "include/ctll/parser.hpp: parser"), ("grammar", "include/ctre/pcre.gram")])
prop("C13", "Pattern syntax denotes the construct it is documented to denote",
 "Every accepted pattern text is translated to the construct its syntax names: escapes and hexadecimal forms denote their exact code point, repetition suffixes denote their exact bounds and greediness, groups, references, assertions, lookarounds, classes and alternatives keep their content, order and precedence. Numbers are read in full, in the right base.",
 ["inputs", "programs"], "every syntax form, with every content in every nesting",
 "Tests pin the translation of about two hundred fixed texts; each syntax form must be right for every content around it.",
 ["include/ctre/pcre_actions.hpp", "include/ctre/actions"],
 [("semantic actions", "include/ctre/actions/*.inc.hpp: apply overloads"), ("fusion of neighbouring repeats", "include/ctre/actions/fusion.inc.hpp")])
prop("C14", "Invalid patterns are rejected at compile time, never silently altered",
 "A pattern that is not in the grammar, refers to a group that does not exist, names an unknown class or property, has a number or code point that does not fit, or whose text is not correctly encoded is rejected when it is compiled; it is never accepted with a different meaning. A pattern is rejected independently of the entry point it is given to.",
 ["inputs", "programs"], "every malformed pattern text, every entry point",
 "Rejection tests exist only for a few dozen texts.",
 ["include/ctll/parser.hpp", "include/ctre/wrapper.hpp", "include/ctre/actions", "include/ctll/fixed_string.hpp"],
 [("rejecting actions", "include/ctre/actions/backreference.inc.hpp, properties.inc.hpp, repeat.inc.hpp, hexdec.inc.hpp"), ("decision", "include/ctll/parser.hpp: decide, move"), ("static assertions", "include/ctre/wrapper.hpp: regex_builder; include/ctre/functions.hpp; include/ctre/literals.hpp")])
prop("C15", "Groups are numbered in pattern order and all are present in the result",
 "Capturing groups, named or not, are numbered from one in the order of their opening parentheses, and the result has exactly one entry for each of them, whatever constructs (alternatives, repetitions, lookarounds, atomic groups, other groups) they are nested in. Named groups keep their names, and a lookup by number or by name finds that group and no other.",
 ["programs"], "every nesting of groups in every construct",
 "Nestings are unbounded; tests use a few.",
 ["include/ctre/find_captures.hpp", "include/ctre/actions/capture.inc.hpp", "include/ctre/return_type.hpp"],
 [("discovery", "include/ctre/find_captures.hpp"), ("numbering", "include/ctre/actions/capture.inc.hpp"), ("lookup", "include/ctre/return_type.hpp: captures::exists/select, identify")])
prop("C16", "Skipping search positions for anchored patterns is never observable",
 "A search may try only the first position only if, in the active line mode, the pattern cannot match at any later position; otherwise it tries every position. So a search finds a match whenever an attempt at some position would succeed.",
 ["programs", "configurations"], "every pattern shape, both line modes",
 "A wrong decision needs a pattern whose anchor is optional, in one alternative only, or behind a consuming part; patterns are unbounded.",
 ["include/ctre/starts_with_anchor.hpp", "include/ctre/wrapper.hpp"],
 [("decision", "include/ctre/starts_with_anchor.hpp: starts_with_anchor"), ("use", "include/ctre/wrapper.hpp: search_method::exec")])
prop("C17", "The greedy-repetition shortcut never changes a result",
 "A greedy repetition may be executed without backtracking only if no character that can begin one more iteration can also begin the rest of the pattern and the rest needs such a character. So with or without the shortcut every pattern gives the same result on every subject, in every case mode.",
 ["programs", "inputs", "configurations"], "every body and continuation, every character, both case modes",
 "The shortcut depends on sets computed from the whole rest of the pattern; a missing overlap shows only for particular body/rest pairs.",
 ["include/ctre/first.hpp", EV],
 [("first sets", "include/ctre/first.hpp: first, calculate_first"), ("disjointness", "include/ctre/first.hpp: collides, point_set"), ("use", EV+": evaluate(list<repeat<...>>)")])
prop("C18", "match, search and starts-with relate to each other as documented",
 "A full match succeeds exactly when the pattern matches from the beginning and ends at the end of the subject; starts-with succeeds exactly when it matches from the beginning; a search tries the positions from left to right, including the end position, and returns the first that matches. Each reports the range it matched, and a search continued from inside a subject still sees what is before.",
 ["inputs", "programs"], "every pattern, every subject, every start position",
 "Tests compare few results per method.",
 ["include/ctre/wrapper.hpp"],
 [("methods", "include/ctre/wrapper.hpp: match_method, search_method, starts_with_method")])
prop("C19", "Iterating over matches makes progress, keeps order and ends",
 "Iteration over all matches, and tokenization, yields successive results each starting at or after the end of the previous one, found by trying the pattern from there (one further after an empty result), and ends at the first failure or when the subject is exhausted. It never yields the same empty match twice and never loops forever; the end is recognised from both sides of a comparison, and advancing a finished iteration keeps it finished.",
 ["inputs", "histories", "programs"], "every pattern and subject, every number of increments",
 "Tests iterate a few subjects, none with an endless sequence.",
 ["include/ctre/iterators.hpp", "include/ctre/range.hpp", "include/ctre/wrapper.hpp"],
 [("iterator", "include/ctre/iterators.hpp: regex_iterator"), ("range", "include/ctre/range.hpp: regex_range"), ("methods", "include/ctre/wrapper.hpp: range_method, tokenize_method, iterator_method")])
prop("C20", "Splitting covers the subject exactly once",
 "The pieces yielded by a split, together with the separators between them, cover the subject exactly once and in order: each piece begins where the previous separator ended and ends where the next separator begins, and the last one ends at the end of the subject. The sequence is finite for every pattern, has one more piece than separators, and groups captured by a separator stay readable on the piece before it.",
 ["inputs", "histories", "programs"], "every separator pattern and subject, every number of increments",
 "Tests split a few subjects with ordinary separators.",
 ["include/ctre/iterators.hpp", "include/ctre/range.hpp"],
 [("split iterator", "include/ctre/iterators.hpp: regex_split_iterator"), ("split range", "include/ctre/range.hpp: regex_split_range")])
prop("C21", "Filtering many subjects yields exactly the matching ones in order",
 "Applying a pattern to a range of subjects yields, in order, the results for exactly those subjects that match, skipping the others, and ends after the last one without reading beyond the range. The iterator compares equal to the end exactly when no further matching subject remains, from both sides of every comparison.",
 ["inputs", "histories"], "every range of subjects, every number of increments",
 "Tests use one short list.",
 ["include/ctre/range.hpp", "include/ctre/wrapper.hpp"],
 [("multi-subject iterator", "include/ctre/range.hpp: multi_subject_range"), ("pipe operators", "include/ctre/wrapper.hpp: operator|")])
prop("C22", "Result comparisons and conversions are coherent",
 "A result or a group converts to true exactly when it matched; comparing it with text is equality of the matched text and inequality is its exact negation in both operand orders, an unmatched one being equal to no text. Conversions to a view, a string, an optional or a number all use exactly the matched text, the optional ones being empty exactly when unmatched.",
 ["inputs"], "every result, matched or not, and every text compared with it",
 "Tests compare matched results with equal text; the unmatched and unequal sides of each overload are hardly touched.",
 ["include/ctre/return_type.hpp", "include/ctre/operators.hpp"],
 [("comparisons", "include/ctre/return_type.hpp: operator==/!= of storage and regex_results"), ("conversions", "include/ctre/return_type.hpp: to_view, to_string, to_optional_*, to_number")])
prop("C23", "UTF-8 subjects are decoded exactly and never overrun",
 "Iterating a UTF-8 subject forwards yields for every well-formed sequence exactly its code point and moves by exactly its length, and iterating backwards visits the same boundaries; malformed or truncated input yields the replacement character where decoded and never makes an iterator read or stop beyond the subject.",
 ["inputs"], "every byte sequence, every position",
 "There are 2^32 four-byte combinations and any number of truncations; tests have a few texts.",
 ["include/ctre/utf8.hpp"],
 [("decoding", "include/ctre/utf8.hpp: utf8_iterator::operator*"), ("stepping", "include/ctre/utf8.hpp: utf8_iterator::operator++/--"), ("range", "include/ctre/utf8.hpp: utf8_range")])
prop("C24", "Pattern text is decoded to exactly its code points",
 "A pattern given as UTF-8, UTF-16, UTF-32, wide or plain characters is seen by the parser as exactly the sequence of code points it encodes, with the right length, and UTF-8 or UTF-16 text that is not correctly encoded is marked as such. Comparing two texts compares exactly their code points.",
 ["inputs"], "every sequence of code units of every encoding",
 "Tests contain a few literals.",
 ["include/ctll/fixed_string.hpp"],
 [("decoders", "include/ctll/fixed_string.hpp: fixed_string constructors, length_and_value_of_utf8_code_point, value_of_trailing_utf8_code_point, length_and_value_of_utf16_code_point")])
prop("C25", "A property class accepts exactly the code points that have the property",
 "A Unicode property class (binary property, general category, script, script extension, age, block) accepts a code point exactly when the code point has that property in Unicode 14.0, the version of the library's tables, for every code point including the first and last of every range; its negation accepts exactly the others; no lookup reads outside its table. Every name and alias of a property the library documents or knows selects that property in either case of letters, and a name that belongs to no property is rejected.",
 ["inputs"], "all 0x110000 code points and every property table",
 "Tests look up a few characters in a few properties.",
 ["include/unicode-db/unicode-db.hpp", "include/unicode-db/unicode_interface.hpp", "include/ctre/atoms_unicode.hpp", "include/ctre/actions/properties.inc.hpp"],
 [("tables and lookups", "include/unicode-db/unicode-db.hpp"), ("predicates", "include/ctre/atoms_unicode.hpp"), ("names", "include/ctre/actions/properties.inc.hpp")])
prop("C26", "Matching has no effects besides its result",
 "Compiling in a pattern and matching, searching, iterating or reading results writes nothing but its own result, allocates nothing, throws nothing, and keeps no state between calls: results depend only on pattern, modes and subject. Only conversions that are documented to build a string may allocate.",
 ["programs", "schedules", "histories"], "every pattern, every call, from any number of threads at once",
 "Absence of effects cannot be observed by sampling results.",
 ["include/ctre", "include/ctll"],
 [("pure functions over values", EV), ("stateless pattern objects", "include/ctre/wrapper.hpp: regular_expression")])
prop("C27", "Matching always terminates",
 "For every pattern and every finite subject a match attempt ends: a repetition without upper bound never continues after an iteration that consumed nothing, no construct is entered again at the same position with the same remaining pattern, and every other loop advances through the subject or a fixed count.",
 ["programs", "inputs"], "every pattern, in particular nested repetitions of possibly empty bodies, and every subject",
 "Non-termination needs particular nestings of possibly-empty bodies; tests cannot enumerate them.",
 [EV],
 [("progress flag", "include/ctre/flags_and_modes.hpp: not_empty_match, consumed_something; "+EV+": end_cycle_mark")])
prop("C28", "All ways to state a pattern or a subject are equivalent",
 "The same pattern used through the named entry points, the literal or the method-style interface, in its single-line and multi-line forms, and the same subject passed as iterators, view, string, C string or range, go through the same operation with the same pattern, modes and subject bounds. A pipe from a range applies the operation of the pattern object to exactly that range.",
 ["configurations", "programs"], "every entry point times every subject form",
 "The product of entry points and subject kinds is large; tests use a few combinations of it.",
 ["include/ctre/wrapper.hpp", "include/ctre/functions.hpp", "include/ctre/literals.hpp"],
 [("dispatch", "include/ctre/wrapper.hpp: regular_expression::exec overloads, match/search/... members, variable templates, operator|")])
prop("C29", "Every construct is handled by every pass over patterns",
 "Every construct that the pattern syntax can produce is handled explicitly wherever patterns are inspected (matching, group discovery, first-character computation, lookbehind mirroring), so that every accepted pattern can be instantiated and no construct falls through to a default that ignores its content.",
 ["programs"], "every construct times every pass, nested at every place",
 "A construct missing from a pass shows only when a pattern nests it in the one place that pass looks at.",
 [EV, "include/ctre/first.hpp", "include/ctre/find_captures.hpp", "include/ctre/rotate.hpp", "include/ctre/atoms.hpp"],
 [("overload sets", EV+": evaluate; include/ctre/first.hpp: first; include/ctre/find_captures.hpp; include/ctre/rotate.hpp")])
prop("C30", "Each construct has the result the reference backtracking semantics gives",
 "For a whole pattern and subject, the result equals the one the documented reference flavour gives, including backtracking into earlier iterations and resource behaviour.",
 ["programs", "inputs"], "every pattern and every subject",
 "Two unbounded inputs and an external oracle.",
 [EV], [("evaluation", EV)])
prop("C31", "Matching time and recursion depth stay bounded by pattern and subject size",
 "Matching needs stack depth at most proportional to the subject length and time bounded by a function documented for the pattern.",
 ["inputs", "programs"], "every pattern and subject",
 "Worst cases need adversarial subjects.",
 [EV], [("evaluation", EV)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
