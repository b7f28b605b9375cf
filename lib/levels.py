"""Per property: the deciding method in a few words, and what assurance it gives."""
T = "TLA+ specification checked with TLC; spec behaviours replayed on, and recordings of, the real code judged by the spec"
_PARSE = (" Exhaustive for the design model within its bounds (calls, nesting, errors, save points, sources); the real parser "
          "is driven through histories TLC generated and through seeded random and large histories, all judged by TraceParse. "
          "Assumes markers are used as documented (last in first out). Trusts TLC, rustc and the recording driver.")
NOTES = {
    "C01": (T, "The delivered tokens are compared with the specification's." + _PARSE),
    "C02": (T, "The delivered tree is compared with the specification's forest." + _PARSE),
    "C03": (T, "Answers of ok_since are compared with the specification's, and everything after the last one with an execution of the effective history (what was undone left out)." + _PARSE),
    "C04": (T, "Every answer is compared with the specification's, and the outcome with an execution that never looked ahead." + _PARSE),
    "C05": (T, "Errors reported by the rowan sink are compared with the specification's placement." + _PARSE),
    "C06": (T, "The layered copy-on-write design is checked to refine ordinary maps (2 maps, 2 keys, stacks of 2, 3 in the thorough tier); one test per transition of that model is replayed on the real maps, and seeded random and large histories are judged by TraceChain. Trusts TLC, rustc and the recording driver."),
    "C07": (T, "As C06, comparing the maps an operation does not name, with and without the sync feature."),
    "C08": (T, "Every graph over 3 nodes (4 in the thorough tier) is sorted and judged, and the work-stack design is checked to sort each rightly; seeded random, large, deep and many-path graphs are judged likewise. Trusts TLC, rustc and the recording driver."),
    "C09": (T, "As C08, judging the error and its witness."),
    "C10": (T, "The work-stack design is checked to keep to the bracket protocol for every visitor over 2 to 3 elements (requests, skips, start work); each is replayed with three kinds of sets, and seeded random, deep and wide traversals are judged callback by callback. Trusts TLC, rustc and the recording driver."),
    "C14": (T, "Every offset, position and range of every text up to 4 characters (6 thorough) over widths 1, 2, 3, 4 and newline is asked and judged, and of random and large texts (70000 characters and more) a sample. The line-index design is checked against the meaning. Ranges are asked start before end."),
    "C15": (T, "As C14, for every range of every small text."),
    "C16": (T, "The design that keeps its index while valid is checked against one-by-one application for every pair (triple, thorough) of edits on small texts; these and random batches on random texts are judged on the real code. Assumes the start of a change's range is not after its end, as documented."),
    "C11": (T, "Rebuilding a path component by component is checked to give the normal form, and cleaning to be idempotent and compatible with push, join and parent, for every path of up to 4 (5, thorough) segments of names, dots and nothing pushed onto every small clean path; each is replayed on the real type, and random byte paths and histories, and how paths compare, are judged. Unix paths only."),
    "C12": (T, "The design (a vector and a map kept in step) is checked one-to-one for every history over 2 stores and 3 paths (4 paths, 3 stores in the thorough tier), including combining; each transition is replayed and random and large histories judged."),
    "C13": (T, "The flat set of files is checked to answer as a tree would for every subset (up to 7) of a universe of paths; these and random sets are judged on the real in-memory file system, and the same questions are put to the real file system in a scratch directory. Parent components and relative spellings other than those promised are outside the property."),
    "C17": (T, "The matrix algorithm's design is checked against the meaning of patterns (which values match) for every list of up to 2 patterns (3 in the thorough tier) over six signatures; these and seeded random matches (wide, recursive, empty, literal and range types; three ways for a language to split) are run on the real checker and judged by enumerating values to the depth the patterns look. Assumes a consistent language."),
    "C18": (T, "As C17, for the first way to match and the patterns it goes through; ill-formed patterns are judged too."),
    "C19": (T, "Every history of up to 6 (9, thorough) operations over texts of all character widths is replayed; random and large ones are judged step by step. Histories go past the end of the string, too. Assumes slices, and the next character boundary, are asked for within the string only."),
    "C20": (T, "Every interleaving of up to 4 (8, thorough) makes per maker of 3 makers is checked and replayed; millions of real identifiers (200 million thorough) in debug and release builds are judged distinct, and 2^30 (all 2^32, thorough) different from the first, from recent ones and from the one before. Assumes fewer than 2^32 per maker."),
    "C21": (T, "Every text of up to 5 (7, thorough) characters over underscore, letters, a digit and a non-ASCII letter, every character up to U+0500 (U+3000) in three contexts, and random text are converted by the real code and judged; that the two directions are inverse on identifiers is checked in the model."),
    "C22": (T, "Every document of up to 3 (4, thorough) lines over the kinds of lines that matter, all pairs of odd headings, and random and large documents are judged."),
    "C23": (T, "What accessors promise is checked against how a grammar builds trees (every node of up to 3 fields over 4 elements and 3 modifiers). Seeded random grammars (14; 150 thorough) are given to the real generator, the output compiled under the names the specification derives, run on trees with and without errors in them, and every answer judged. Trusts rowan and rustc."),
    "C24": (T, "As C23, judging the kinds, tables, descriptions and documentation of the compiled code; that names of punctuation keep tokens apart is decided for runs of any length by a finite search over the real table of names (unique decodability)."),
    "C25": (T, "Debug and release builds of the real macro and conversions are judged by one specification that has the configuration as a parameter: 13 forms of use with both outcomes, numbers around every power of two that matters and random ones."),
    "C26": (T, "Renderings and readings of all codes 0..65535, and boundary and random positions, ranges, diagnostics, sequences, patterns and code texts, and how they order, are judged; decimal counting and reading back are checked in the model."),
    "C27": (T, "Every list of up to 5 (6) keys over 4, boundary and random numbers, texts around the lengths where names are stored differently, and all characters up to U+10FFFF are given to the real constructors and judged."),
    "C28": (T, "A clock read before and after the call is checked to keep the promise for every nesting of up to 4 calls, whatever the clock does but go back; each is replayed, and random nestings with panics, messages and log levels are judged with clocks read inside and outside. Assumes a monotonic clock."),
    "C29": (T, "Every history of 2 (3, thorough) writes, failing or not, to 2 files is checked and replayed; seeded random histories of files made of 30 forms of items are judged: tokens, layout, other files. What is no Rust file is known by construction. Trusts the tokenizer of proc-macro2."),
    "C30": (T, "Every history of 5 (6, thorough) steps over up to 3 markers of both kinds is checked in the model and a sample of them replayed in both builds; seeded random ones of up to 200 steps are judged likewise. Assumes constructs are given back last in first out, as documented."),
    "C31": (T, "Which rules are supported is checked against the way they are gone through for every rule of nesting 3 (4, thorough) in the model; a sample of them, with all layouts of seeded random grammars, is given to the real generator twice and in two processes, over various files, and panics and digests of all files are judged. Where it was made from is read from compiled code."),
}
