#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, invs=None, mech=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in (mech or [])],
                  "observe_at": observe or [], "hook_needed": None}})

EP = ["crates/event-parse/src/lib.rs", "crates/token/src/lib.rs"]
p("C01", "Parsing loses, repeats and reorders no source text",
  "However a parser consumed its input, finishing it inside one enclosing construct delivers every consumed token, and all trivia (whitespace, comments) before, between and directly after them, to the sink exactly once and in source order. So the delivered texts concatenate to the source text up to the first token left unconsumed, and to the whole source when no non-trivia token was left, also when the source is all trivia.",
  ["inputs", "histories"], "every token list and every legal history of parser operations (opening, closing, abandoning, wrapping constructs, consuming, erroring, backtracking) within one enclosing construct",
  "event-parse has only a size-of test: no test ever runs a parser, and losslessness ranges over all token lists and operation histories.",
  EP, mech=[("trivia is re-inserted when the events are replayed", "event-parse/src/lib.rs Parser::finish, eat_trivia")],
  observe=["Sink::token calls made by Parser::finish"])
p("C02", "The delivered tree is the tree the parser calls describe",
  "The sink receives balanced enter and exit calls forming exactly the described tree: one node per completed construct that consumed a token, nested as opened, a construct wrapped after completion becoming the first child of its wrapper (again wrappable if that wrapper was abandoned), and an abandoned construct's contents belonging to its parent. A construct without tokens yields no node, except that a parse that delivers no token at all yields exactly one empty node, of the outermost construct's kind. Trivia is kept as far out as possible: none is delivered inside a construct, other than the outermost, before its first token, nor after its last token unless a construct without tokens was completed there.",
  ["inputs", "histories"], "every token list and every legal history of enter/exit/abandon/precede/bump/error/save/restore operations",
  "No test runs the parser; the shape depends on unbounded interleavings of forward-parent links, abandoned markers, empty nodes and trivia.",
  EP, mech=[("forward-parent links resolved when replaying events", "event-parse/src/lib.rs Parser::precede/finish"), ("lazy entering drops empty nodes", "event-parse/src/lib.rs to_enter")],
  observe=["Sink::enter/token/exit calls", "rowan tree from RowanSink"])
p("C03", "Backtracking is all-or-nothing",
  "Asking a parser whether things went well since a save point answers no exactly when an error was recorded since that save point; then the parser behaves from there on exactly as it did when the save point was taken, and what it parsed or recorded in between never reaches the sink. If the answer is yes, nothing is undone: the position and everything recorded stay as if no save point had been taken.",
  ["histories"], "every history of saves (nested ones too), parsing operations that leave earlier constructs alone, errors and restores",
  "No test uses save points; the property relates every later observation to the state at the save point over arbitrary nesting.",
  EP, mech=[("event log truncation and position reset", "event-parse/src/lib.rs Parser::save/ok_since")],
  observe=["Parser::ok_since result, later peeks, Sink calls"])
p("C04", "Lookahead is pure and consumption takes the next non-trivia token",
  "Looking ahead n tokens gives the n-th not yet consumed non-trivia token or nothing past the end, whatever was looked at before, and no lookahead changes what is parsed; consuming returns precisely what lookahead 0 gave, and panics if that was nothing. Expecting a kind consumes and returns the current token if it has that kind, and otherwise consumes nothing and records one error for that kind. A completed construct reports being empty exactly when no token lies inside it, trivia looked past and constructs it wrapped included.",
  ["inputs", "histories"], "every token list with trivia anywhere, every history of lookaheads, consumptions and construct operations",
  "No test exercises lookahead; effects of looking past trivia show only in particular sequences of calls.",
  EP, mech=[("position skips trivia lazily", "event-parse/src/lib.rs Parser::peek/peek_n/bump/eat"), ("emptiness from positions", "event-parse/src/lib.rs Parser::exit, Exited::is_empty")],
  observe=["Parser::peek/peek_n/at/at_n/eat/bump results", "Exited::is_empty"])
p("C05", "Each parse error is reported once, at the token where it was recorded",
  "Building a rowan tree reports every error that was recorded and not backtracked over exactly once, in the order recorded. Each carries the text range and kind of the token that was current when it was recorded, i.e. the first non-trivia token after it, or, if there is none, of the last token delivered (an empty range at 0 and no kind if there is none at all). Ranges are positions in the delivered text, so each range covers exactly its token's text in the tree.",
  ["inputs", "histories"], "every token list and every history of errors interleaved with consumption, constructs and backtracking",
  "There is no test of the rowan sink; attribution depends on trivia and on what follows the error.",
  EP + ["crates/event-parse/src/rowan_sink.rs"], mech=[("errors held back until the next non-trivia token", "event-parse/src/rowan_sink.rs extend_errors")],
  observe=["RowanSink::finish errors and tree"])
CM = ["crates/chain-map/src/lib.rs", "crates/fast-hash/src/lib.rs"]
p("C06", "A chain map behaves as an ordinary map",
  "After any sequence of operations a chain map answers every query as an ordinary map would after the same operations: the latest value given to a key that was not removed since is found, iteration yields each present key once with that value, emptiness means no key is present, and insertion and removal report truthfully what was there. Appending one map to another lets the appended entries win and leaves the appended map empty; draining and consuming iteration hand out exactly the entries present; consolidating changes nothing observable.",
  ["histories"], "every history of insert/get/get_mut/remove/iter/iter_mut/drain/extend/append/clone/consolidate/collect/consume on any number of maps",
  "The only test inserts one key; shadowing between layers only shows over histories.",
  CM, mech=[("stack of layers, newest wins", "chain-map/src/lib.rs get/iter/insert"), ("merging layers", "chain-map/src/lib.rs consolidate_")],
  observe=["return values of all ChainMap methods"])
p("C07", "Clones of a chain map never affect one another",
  "A clone of a chain map starts with the contents of the map it is made of, which keeps them. An operation on one chain map, including in-place mutation, removal, draining, appending and consolidation, changes no other chain map's contents, however much the maps share through cloning. This holds with and without the thread-safe feature.",
  ["histories", "configurations"], "every history of operations on families of clones of clones, both feature settings",
  "No test clones a map; sharing of layers between clones is invisible until one of them is mutated after a particular history.",
  CM, mech=[("copy-on-write of shared layers", "chain-map/src/lib.rs consolidate_ (make_mut, try_unwrap)")],
  observe=["contents of every live ChainMap after every operation"])
TS = ["crates/topo-sort/src/graph.rs", "crates/topo-sort/src/lib.rs"]
p("C08", "A successful topological sort orders every node after all it depends on",
  "Sorting a graph without cycles succeeds, and the order contains every node mentioned in the graph, whether as a key or only as a neighbor, exactly once, each after all of its neighbors.",
  ["inputs"], "every finite acyclic graph",
  "Five hand-written graphs are tested; the property quantifies over all graphs.",
  TS, mech=[("depth-first work list", "topo-sort/src/lib.rs Work::run"), ("post-order", "topo-sort/src/graph.rs Visitor::exit")],
  observe=["graph::get result"])
p("C09", "A cycle is reported exactly when there is one, with a true witness",
  "Sorting a graph fails exactly when the graph has a cycle (self-loops included), and the reported witness lies on a cycle of the graph.",
  ["inputs"], "every finite graph",
  "The tests check three cyclic graphs and ignore which witness is returned.",
  TS, mech=[("in-progress set", "topo-sort/src/lib.rs Work::run cur")],
  observe=["graph::get error, CycleError::witness"])
p("C10", "Traversal visits what was asked for, once, properly nested",
  "Whatever a visitor adds or skips, each element that was requested and not skipped is processed exactly once and exited exactly once after everything its processing requested has been exited, skipped or found in progress; nothing else is processed. Processing and exiting nest like brackets, the level told at each exit is the number of elements still open, the returned set is exactly the elements exited, and an element is reported as a cycle exactly if some element was requested, and not skipped, while in progress, being such an element.",
  ["inputs", "programs"], "every visitor behaviour (which elements are skipped, what processing requests, repeated requests) and every initial work, for tree and hash sets",
  "Tests only go through the graph wrapper, which never skips, never repeats a request and ignores level and the returned set.",
  TS, mech=[("start/end actions on one stack", "topo-sort/src/lib.rs Work::run")],
  observe=["Visitor callbacks and Ret of Work::run"])
PA = ["crates/paths/src/lib.rs", "crates/idx/src/lib.rs"]
p("C11", "Clean paths are absolute and dot-free, and mean the same place",
  "A clean path can be made from exactly the absolute paths, and equals the lexical normal form: absolute, no `.`, no `..`, no doubled or trailing separators, each `..` having removed the component before it and stopping at the root. Pushing or joining a path resolves it relative to the clean path (an absolute one replaces it), taking a parent drops the last component, and the results are clean again, so cleaning is idempotent and making from a concatenation equals making then pushing. Clean paths compare, order, hash and are looked up (also as plain paths) like their sequences of components.",
  ["inputs", "histories"], "every path and every sequence of push/join/parent",
  "One test and two doc tests use five paths.",
  PA, mech=[("component-wise rebuild", "paths/src/lib.rs CleanPathBuf::new_unchecked")],
  observe=["CleanPathBuf::new/push, CleanPath::join/parent/as_path"])
p("C12", "Path ids and paths correspond one to one, forever",
  "A path store gives two requests the same id exactly when the paths are equal, whichever way of asking is used and whatever was stored in between, and looking up an id gives back the path it was given for. Combining a store into another keeps all earlier ids valid, calls back once for each path of the other store with its id there and its id here, and both ids denote that same path.",
  ["histories"], "every history of id requests, lookups and combines over any paths and stores",
  "The store has no test.",
  PA, mech=[("vector plus hash map kept in step", "paths/src/lib.rs Store")],
  observe=["Store::get_id/get_id_owned/get_path/combine"])
p("C13", "The in-memory file system is consistent with its contents",
  "In the in-memory file system exactly the stored paths, in any absolute spelling without `..`, are files: reading one as text or bytes gives its stored contents, and reading anything else fails with not-found. Listing a directory gives exactly the stored paths strictly below it, each once, and the current directory is a clean absolute path. Through the same interface, the real file system gives a file's exact contents, a directory's immediate entries, not-found errors for missing paths, and says file only for files.",
  ["inputs", "histories"], "every set of stored files and every queried path",
  "No test uses a file system.",
  PA, mech=[("ordered map keyed by clean path", "paths/src/lib.rs MemoryFileSystem"), ("std::fs", "paths/src/lib.rs RealFileSystem")],
  observe=["FileSystem methods"])
TP = ["crates/text-pos/src/lib.rs"]
p("C14", "Offsets and UTF-16 positions correspond one to one",
  "For any text, each byte offset on a character boundary maps to the position whose line is the number of newlines before it and whose column is the number of UTF-16 code units since the last newline, and that position maps back to the same offset; the end position is that of the text's length. Any other offset (past the end, inside a character) and any other position (line or column out of bounds, between surrogates) maps to nothing, and never panics; ranges map endpoint by endpoint.",
  ["inputs"], "every text (ASCII, 2-, 3- and 4-byte characters, any line structure), every offset, position and range",
  "Tests check eleven ASCII offsets in one direction, through a private function.",
  TP, mech=[("line index", "text-pos/src/lib.rs position_utf16/text_size_utf16 and line-index")],
  observe=["PositionDb public conversions"])
p("C15", "Splitting a range into lines tiles it",
  "Iterating over the lines of any range within a text yields non-empty consecutive ranges that together are exactly that range, split precisely after each newline character in it.",
  ["inputs"], "every text and every range of it",
  "Three texts are tested, always on the full range.",
  TP, mech=[("newline offsets", "text-pos/src/lib.rs lines")], observe=["PositionDb::lines"])
p("C16", "Applying a batch of edits equals applying them one by one",
  "Applying a list of changes to a text gives what results from applying each in turn to the then current text: a change without a range replaces the whole text, a change with a range replaces exactly the text between the positions as they are in the then current text, and a change whose range is out of bounds there is ignored. This holds whatever the order, direction, overlap and number of lines of the changes, and never panics.",
  ["inputs", "histories"], "every text and every list of changes whose ranges have start not after end",
  "The crate has no tests; its cached line index is right only if invalidated correctly over every sequence of edits.",
  ["crates/apply-changes/src/lib.rs", "crates/text-pos/src/lib.rs"], mech=[("line index reused while valid", "apply-changes/src/lib.rs index_valid")],
  observe=["apply_changes::get"])
PM = ["crates/pattern-match/src/alg.rs", "crates/pattern-match/src/matrix.rs", "crates/pattern-match/src/types.rs"]
p("C17", "Missing patterns describe exactly the unmatched values",
  "The check reports no missing pattern exactly when every value of the type is matched by some pattern. Otherwise every value matched by a missing pattern is matched by none of the given patterns and, when constructors are always split completely, every unmatched value is matched by some missing pattern; missing patterns contain no or-patterns and are well-formed patterns of the type.",
  ["inputs", "programs"], "every type (enumerations, products, nested, recursive, open-ended literals, empty), every list of well-typed patterns with wildcards, nested or-patterns and omitted trailing arguments",
  "The crate has no tests.",
  PM, mech=[("usefulness recursion on a pattern matrix", "pattern-match/src/alg.rs useful/specialize")],
  observe=["check().missing"])
p("C18", "Exactly the patterns no value can reach are reported unreachable",
  "A pattern or subpattern is reported unreachable exactly when there is no value for which, trying patterns top to bottom and or-alternatives left to right, the first way to match goes through it. Nothing that was not given is ever reported, and ill-formed patterns give an error, not a panic.",
  ["inputs", "programs"], "every type and list of well-typed patterns, with nested or-patterns anywhere",
  "The crate has no tests.",
  PM, mech=[("removal of useful indices", "pattern-match/src/alg.rs useful"), ("or-expansion in rows", "pattern-match/src/matrix.rs expand_or")],
  observe=["check().unreachable"])
p("C19", "The string cursor always describes one position of its string",
  "The current byte is always the string's byte at the current index (nothing at or past the end), and each operation moves the index as promised: by one, while a condition holds, over a prefix only if it is entirely there, or to the next character boundary. The slice since a mark is exactly the bytes between the mark and the current index (insisting on a non-empty one panics if it is empty), and reports of having moved since a mark are true exactly if the index is greater.",
  ["inputs", "histories"], "every string and every history of cursor operations and marks, going past the end included; slices and the next character boundary are asked for within the string only",
  "The crate has no tests.",
  ["crates/str-process/src/lib.rs"], mech=[("single index into the string", "str-process/src/lib.rs St")], observe=["St methods"])
p("C20", "Generated unique identifiers never repeat",
  "No two identifiers made by one maker are equal, have the same hash-map identity or print the same, however many are made and whatever other makers do.",
  ["histories"], "every history of up to 2^32 - 1 makes, interleaved over makers",
  "One doc test makes two identifiers.",
  ["crates/uniq/src/lib.rs"], mech=[("counter", "uniq/src/lib.rs UniqMk::mk")], observe=["UniqMk::mk"])
p("C21", "Identifier case conversions are exact inverses on proper identifiers",
  "Converting snake case of either letter case to pascal case drops each underscore, upper-cases the first character of each word and lower-cases the others; converting pascal or camel case to snake case lower-cases every letter and puts an underscore before each upper-case letter except at the very start. Only ASCII letters have case here; all else passes unchanged. So the two are inverse to each other on lower snake case identifiers whose words start with letters and on pascal case identifiers.",
  ["inputs"], "every string",
  "Seven examples are doc-tested.",
  ["crates/identifier-case/src/lib.rs"], mech=[("per-character transducers", "identifier-case/src/lib.rs")], observe=["snake_to_pascal, pascal_to_snake"])
p("C22", "Every documented heading maps to exactly its own section",
  "Turning a Markdown document into a map gives one entry per code heading, i.e. per line that is `## ` and a key between single backquotes (`## `` ` ``` has a backquote as its key), whose value is that key's starting string followed by every line up to the next code heading, each preceded by a newline; text before the first one belongs to no entry. No other line, other headings included, is taken for a code heading, and duplicate keys panic instead of losing a section.",
  ["inputs"], "every document",
  "The crate has no tests.",
  ["crates/code-h2-md-map/src/lib.rs"], mech=[("one pass over lines with a pending section", "code-h2-md-map/src/lib.rs get")], observe=["code_h2_md_map::get"])
SG = ["crates/syntax-gen/src/lib.rs", "crates/syntax-gen/src/seq.rs", "crates/syntax-gen/src/alt.rs", "crates/syntax-gen/src/ast.rs", "crates/syntax-gen/src/kind.rs", "crates/syntax-gen/src/token.rs", "crates/write-rs-tokens/src/lib.rs"]
p("C23", "Generated syntax accessors return the child the grammar names",
  "For any supported grammar the generated code compiles; each generated node type casts from exactly its own kind (an alternative from exactly its members' kinds) and gives back the same node. Each field accessor, named by its label or its element's name, returns from any tree the right child by position among the children of that element: the first, or the n-th if n fields naming the same element precede it, or nothing, and all of them in order for a repeated field. A type for a node named `Root` can also be cloned, and shows itself as its tree.",
  ["programs", "inputs"], "every grammar in the supported form (rules are sequences of elements, each maybe labeled, optional or repeated, or choices of plain nodes or of tokens; derived names are distinct and no Rust keywords; some kind is trivia), every syntax tree over it",
  "syntax-gen has no tests; correctness is a property of generated programs over all trees.",
  SG, mech=[("field generation with per-name counts", "syntax-gen/src/seq.rs field"), ("alternatives", "syntax-gen/src/alt.rs")],
  observe=["generated ast.rs compiled and run"])
p("C24", "Generated syntax kinds classify every token of the grammar correctly",
  "For any supported grammar every token gets its own kind, distinct from all others: declared special tokens keep their name, tokens with letters become keywords recognised by exactly their text, and all others punctuation listed with exactly their text, no entry before a longer one. Kinds convert to raw numbers and back unchanged, are trivia exactly if declared so, describe themselves by the declared description or else the quoted text, and carry exactly the declared documentation.",
  ["programs", "inputs"], "every grammar in the supported form (as for C23), every byte string looked up",
  "syntax-gen has no tests.",
  SG + ["crates/char-name/src/lib.rs", "crates/identifier-case/src/lib.rs"], mech=[("token classification and naming", "syntax-gen/src/token.rs"), ("sorted tables", "syntax-gen/src/kind.rs")],
  observe=["generated kind.rs compiled and run"])
p("C25", "Assertions stop debug builds, never release builds, and never lie",
  "The assertion macro evaluates its condition once and yields its value; a false condition panics in debug builds and in other builds continues and logs one error with the given message, a true one does neither. Checked integer conversions give the same number when it fits, and otherwise panic in debug builds and saturate in others.",
  ["configurations", "inputs"], "both build profiles, every condition, message and number",
  "Tests run in one build profile, and the crate has none.",
  ["crates/always/src/lib.rs", "crates/always/src/convert.rs"], mech=[("cfg!(debug_assertions)", "always/src/lib.rs always!")], observe=["always!, convert functions, log records"])
p("C26", "Rendered positions, diagnostics and codes are exact and read back",
  "Positions render one-based as line:column and ranges as both ends, the second line number being left out exactly if both are on one line; diagnostics render as range, severity and message, separated sequences with separators only between elements, patterns as constructor and parenthesised arguments or as alternatives joined by ` | `. A diagnostic code renders as its number and parsing the rendering gives back the code, while text that is no number of at most 65535 is an error; positions, ranges and codes order as their numbers do, and errors are more severe than warnings.",
  ["inputs"], "every position, range, message, sequence, pattern, code and code text",
  "None of this is tested.",
  ["crates/text-pos/src/lib.rs", "crates/diagnostic/src/lib.rs", "crates/fmt-util/src/lib.rs", "crates/pattern-match/src/types.rs"], mech=[("Display impls", "diagnostic/src/lib.rs, text-pos/src/lib.rs"), ("sep_seq", "fmt-util/src/lib.rs")],
  observe=["Display and FromStr impls"])
p("C27", "Checked constructors accept exactly the valid values and keep them",
  "A name can be made from exactly the non-empty strings, keeps its text, and compares, orders, hashes and looks up like it. Maps and sets made from listed elements contain exactly those and panic on a duplicate key; indices (ordered likewise) and text sizes convert back to the number they were made from and panic if it does not fit; wrapping a value with a path id or a location keeps both; every nameable punctuation character has its own name made of letters, and asking for another's name gives none, or panics if one was insisted on.",
  ["inputs"], "every string, element list, number and character",
  "None of this is tested.",
  ["crates/str-util/src/lib.rs", "crates/fast-hash/src/lib.rs", "crates/idx/src/lib.rs", "crates/text-size-util/src/lib.rs", "crates/char-name/src/lib.rs"], mech=[("checking constructors", "Name::try_new, fast_hash::map/set, Idx::new, mk_text_size, char_name::get")],
  observe=["constructors and accessors"])
p("C28", "Timing a call changes nothing about it and reports the time it took",
  "Timing a call makes it exactly once, gives back its result and a duration at least as long as the function ran and at most as long as the timing took. Logging the time of a call does the same but, after the call, logs exactly one record at the info level, `message: duration`, whose message is the one given whatever its text; nothing is logged, and the call still made, if that level is not enabled. If the function panics, the panic comes through and nothing is logged for that call.",
  ["programs", "configurations"], "every function timed (itself timing others, panicking or not), message and log level",
  "The crate has no tests.",
  ["crates/elapsed/src/lib.rs"], mech=[("a monotonic clock read before and after", "elapsed/src/lib.rs time"), ("log record after the call", "elapsed/src/lib.rs log")],
  observe=["results, durations, log records, panics"])
p("C29", "Generated Rust is written whole, unchanged and formatted, or not at all",
  "Writing Rust tokens to a named file leaves in that file of the build's output directory, whatever it had before, exactly those tokens (but for commas before closing delimiters) as formatted source, every item on lines of its own, and changes no other file. Writing the tokens of such a file again gives the same text. If the tokens are no Rust file, or there is no such directory, it panics and leaves all files as they were.",
  ["inputs", "histories"], "every token stream, file name and history of writes",
  "The crate has no tests.",
  ["crates/write-rs-tokens/src/lib.rs"], mech=[("parse and format before writing", "write-rs-tokens/src/lib.rs go")], observe=["files in OUT_DIR, panics"])
p("C30", "Markers forgotten are noticed, markers given back are not",
  "A construct begun with a parser, also around a completed one, panics when its marker is dropped without having been completed or abandoned, and so does, in debug builds only, a mark of a string cursor dropped without having been used. A marker that was given back never does, and save points need not be. Dropping a marker while a panic is already coming through adds none, so that panic arrives unchanged.",
  ["histories", "configurations"], "every history of markers made, given back (constructs last in first out) and dropped, both build profiles",
  "No test drops a marker.",
  ["crates/event-parse/src/lib.rs", "crates/str-process/src/lib.rs"], mech=[("drop bombs defused when a marker is given back", "event-parse/src/lib.rs Entered, str-process/src/lib.rs Marker")],
  observe=["panics"])
p("C31", "Making syntax code is reproducible and refuses unsupported grammars",
  "The same options give the same two files every time, whatever was there or made before, however the grammar is laid out and commented and in whatever order the maps of documentation and descriptions were filled. A grammar that does not parse, has punctuation with a character that has no name, or has a rule that is neither a sequence of elements (each labelled at most once, and optional or repeated at most once) nor a choice of nodes only or of tokens only, makes it panic and leaves the files as they were. Both files' `GENERATED_BY` is the calling file as given, and no other file is touched.",
  ["programs", "configurations", "histories"], "every grammar (supported or not, but for names that are no identifiers or clash), layout and order of the maps, every history of makings",
  "syntax-gen has no tests.",
  SG, mech=[("tables are sorted, types come in the grammar's order", "syntax-gen/src/kind.rs"), ("rules are gone through before anything is written", "syntax-gen/src/lib.rs get")],
  observe=["files written, panics, GENERATED_BY of compiled code"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
