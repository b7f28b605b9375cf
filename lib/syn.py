"""C23: generated syntax accessors. C24: generated syntax kinds."""
import fcntl
import hashlib

from common import *

SYN_TARGET = TARGET + "-syn"
RUST_KW = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub
ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final
macro override priv typeof unsized virtual yield try gen union syntax cast can_cast clone fmt into try_into from
borrow borrow_mut to_owned type_id""".split())
TYPES = set("""SyntaxNode SyntaxToken SyntaxElement SyntaxKind SyntaxNodePtr AstNode AstPtr SK Option Some None Ok Err
Result Self TryFrom TryInto Iterator Error P C Kind Language Default Clone Debug Copy Send Sync Fn Drop Box Vec String
Eq Ord PartialEq PartialOrd Hash""".split())
PUNCT = "_-,;:!?.()[]{}*/&#%^+<=>|~`$@"
WORDS = ["let", "fun", "val", "in", "if", "then", "else", "type", "match", "end", "a", "b", "x1", "and_also", "or_else",
         "import_all", "true", "struct", "self", "while2", "go_to_line", "kw", "lt", "eq", "at", "plus", "e", "UPPER",
         "Mixed", "with_type", "do", "_foo", "__bar_", "x_9", "a9_b"]
NODES = ["Root", "Expr", "Pat", "Ty", "FooBar", "Dec", "LetDec", "ValDec", "HTTPReq", "Arg", "ArgList", "Item", "Lit",
         "Name_", "CallExpr", "BinExpr", "IfExpr", "Then", "X", "Abc", "TyVar", "Op", "OpSeq", "Exprs", "Bs", "Kw"]
SPECIAL = [("Ident", "an identifier"), ("IntLit", "an integer {literal}"), ("StrLit", 'a "string" literal'),
           ("$weird", None), ("Char", "`"), ("Eof", ""), ("Percent", "a % sign\nor so")]
DOCS = ["does `this`", "", "A \"doc\" with\nmany lines \\ and {braces}", "é€😀", "// not a comment", " padded\t\n", "\n\n  indented\r\n", "`", "{0}", " ", "None"]


ODD = ["//", "///", "/*", "*/", "//!", "::=", "=", "|", "?", "*", "(", ")", ":", "#", "{}", "{", "}}", "%%", "@:", "&&", "`", "``"]


def cps(t):
    return [ord(x) for x in t]


def text(xs):
    return "".join(map(chr, xs))


def snake(t):
    return "".join(("_" if k and x.isupper() else "") + x.lower() for k, x in enumerate(t))


def kind_name(chars, t):
    if t["special"]:
        return t["text"]
    if any(x.isalpha() for x in t["text"]):
        return "".join(w[:1].upper() + w[1:].lower() for w in t["text"].split("_")) + "Kw"
    return "".join(chars[x] for x in t["text"])


def rand_grammar(rng, chars, size, trivias=(1, 2, 3), notokens=False):
    """A grammar in the supported form: names that do not clash, no keywords of Rust as names."""
    kinds = set()

    def take(name):
        if name in kinds or name in TYPES:
            return False
        kinds.add(name)
        return True
    lang = rng.choice(["Lang", "SML", "Jsonnet"])
    kinds.add(lang)
    trivia = []
    for x in rng.sample(["Whitespace", "BlockComment", "LineComment", "Newline", "Invalid"], rng.choice(trivias)):
        take(x)
        trivia.append(x)
    tokens = []

    def token(t, special=False, desc=None):
        tok = {"text": t, "special": special, "desc": desc, "doc": rng.choice(DOCS) if rng.random() < .3 else None}
        if any(o["text"] == t for o in tokens) or not take(kind_name(chars, tok)):
            return
        tokens.append(tok)
    for t, d in rng.sample(SPECIAL, rng.choice([0, 1, 2, 4])):
        if d is None:
            t, d = rng.choice([("Semi", "a semi"), ("TyVarTok", "type variable")])
        if rng.random() < .25:
            d = rng.choice(DOCS)
        token(t, True, d)
    # runs of punctuation, many with the same start
    base = rng.sample(PUNCT, rng.choice([1, 3, 6]))
    for _ in range(rng.choice([0, 2, 5, 12, 25])):
        token("".join(rng.choice(base if rng.random() < .8 else PUNCT) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))))
    for w in rng.sample(WORDS, rng.choice([0, 1, 4, 10])):
        token(w)
    # what is something else in grammars, or in Rust
    if rng.random() < .5:
        for w in rng.sample(ODD, rng.choice([1, 3, len(ODD)])):
            token(w)
    if not tokens:
        token("+")
    if notokens:
        tokens = []
        kinds.intersection_update(trivia + [lang])
    rng.shuffle(tokens)
    n = size
    names = []
    pool = list(NODES)
    rng.shuffle(pool)
    if rng.random() < .8:
        pool.remove("Root")
        pool.insert(rng.choice([0, rng.randrange(size)]), "Root")
    while len(names) < n and pool:
        x = pool.pop(0)
        if take(x):
            names.append(x)
    nodes = [{"name": x, "alt": "no", "members": [], "fields": []} for x in names]
    seqs = list(range(len(nodes)))
    for k in rng.sample(range(len(nodes)), rng.choice([0, 1, 2, min(4, len(nodes) // 3)])):
        if nodes[k]["name"] != "Root" and len(seqs) > 2:
            seqs.remove(k)
            nodes[k]["alt"] = rng.choice(["nodes", "tokens"])
            if len(tokens) < 2 or nodes[k]["name"] + "Kind" in kinds:
                nodes[k]["alt"] = "nodes"
            if nodes[k]["alt"] == "tokens":
                kinds.add(nodes[k]["name"] + "Kind")
    for nd in nodes:
        if nd["alt"] == "nodes":
            nd["members"] = [x + 1 for x in rng.sample(seqs, rng.randint(2, min(5 if rng.random() < .6 else 40, len(seqs))))]
        elif nd["alt"] == "tokens":
            nd["members"] = [x + 1 for x in rng.sample(range(len(tokens)), rng.randint(2, min(5 if rng.random() < .6 else 40, len(tokens))))]
    for k in seqs:
        nd = nodes[k]
        used = set()
        few = rng.random() < .4
        favs = [(rng.random() < .4, rng.random()) for _ in range(2)]
        for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
            tok, r = rng.choice(favs) if few else (rng.random() < .5, rng.random())
            tok = tok and tokens != []
            el = int(r * len(tokens if tok else nodes)) + 1
            mod = rng.choice(["one", "one", "one", "opt", "rep"])
            base = kind_name(chars, tokens[el - 1]) if tok else nodes[el - 1]["name"]
            name = snake(base) + ("s" if mod == "rep" else "")
            label = None
            if rng.random() < .25 or name in used or name in RUST_KW:
                for _ in range(30):
                    label = rng.choice(["lhs", "rhs", "fst", "snd", "third_one", "cond", "body", "args", "the_op", "the_dot", "_rest", "__y", "x", "last_", "innerMost", "Top"])
                    if label not in used:
                        break
                else:
                    continue
            if (label or name) in used:
                continue
            used.add(label or name)
            nd["fields"].append({"label": label, "tok": tok, "el": el, "mod": mod, "in": rng.random() < .3})
        if not nd["fields"]:
            nd["fields"].append({"label": "only", "tok": False, "el": 1, "mod": "opt", "in": False})
    return {"lang": lang, "trivia": trivia, "tokens": tokens, "nodes": nodes}


def many(rng, chars, n):
    """A grammar with more kinds than a byte can tell apart."""
    g = rand_grammar(rng, chars, 6)
    have = {kind_name(chars, t) for t in g["tokens"]}
    for k in range(n):
        t = "t" + "".join("abcdefghij"[int(d)] for d in str(k)) + rng.choice(["", "", "_x"])
        tok = {"text": t, "special": False, "desc": None, "doc": rng.choice(DOCS) if rng.random() < .1 else None}
        if kind_name(chars, tok) not in have:
            g["tokens"].append(tok)
            have.add(kind_name(chars, tok))
    return g


def wide(rng, chars, fields, nodes):
    """A grammar with nodes of many fields that name the same elements, and with many nodes."""
    g = rand_grammar(rng, chars, 6)
    low = "abcdefghijklmnopqrstuvwxyz"
    first = len(g["nodes"]) + 1
    for k in range(nodes):
        el = rng.randrange(first + nodes) or 1
        g["nodes"].append({"name": "W" + low[k // 26] + low[k % 26] + "Node", "alt": "no", "members": [],
                           "fields": [{"label": "only", "tok": False, "el": el, "mod": "opt", "in": False}]})
    seqs = [n for n in g["nodes"] if n["alt"] == "no"]
    for nd in [seqs[0], rng.choice(seqs[1:])]:
        els = [(False, first + rng.randrange(nodes)), (True, 1 + rng.randrange(len(g["tokens"]))), (False, first + rng.randrange(nodes))]
        nd["fields"] = []
        for k in range(fields):
            tok, el = rng.choice(els[:rng.choice([1, 2, 3])])
            nd["fields"].append({"label": "w_" + low[k // 26] + low[k % 26], "tok": tok, "el": el, "mod": rng.choice(["one"] * 6 + ["opt", "rep"]), "in": rng.random() < .3})
    return g


def quoted(t):
    return "'" + t.replace("\\", "\\\\").replace("'", "\\'") + "'"


def grammar_text(g, rng):
    out = []
    for nd in g["nodes"]:
        if nd["alt"] == "no":
            parts = []
            for f in nd["fields"]:
                x = quoted(g["tokens"][f["el"] - 1]["text"]) if f["tok"] else g["nodes"][f["el"] - 1]["name"]
                m = {"one": "", "opt": "?", "rep": "*"}[f["mod"]]
                if f["label"] and f["in"] and m:
                    x = f"({f['label']}:{x}){m}"
                else:
                    x = (f"{f['label']}:" if f["label"] else "") + x + m
                parts.append(x)
            out.append(f"{nd['name']} =\n  " + rng.choice([" ", "\n  "]).join(parts))
        else:
            xs = [g["nodes"][m - 1]["name"] if nd["alt"] == "nodes" else quoted(g["tokens"][m - 1]["text"])
                  for m in nd["members"]]
            out.append(f"{nd['name']} =\n  " + rng.choice([" | ", "\n| "]).join(xs))
    # tokens that no rule mentions are no tokens of the grammar: mention all
    used = {f["el"] for nd in g["nodes"] for f in nd["fields"] if f["tok"]}
    used |= {m for nd in g["nodes"] if nd["alt"] == "tokens" for m in nd["members"]}
    rest = [k for k in range(1, len(g["tokens"]) + 1) if k not in used]
    return "\n\n".join(out) + "\n", rest


def spec_grammar(g, table):
    opt = lambda x: [] if x is None else [cps(x)]
    return {"trivia": [cps(x) for x in g["trivia"]],
            "tokens": [{"text": cps(t["text"]), "special": t["special"], "desc": opt(t["desc"]), "doc": opt(t["doc"])}
                       for t in g["tokens"]],
            "nodes": [{"name": cps(n["name"]), "alt": n["alt"], "members": n["members"],
                       "fields": [{"label": opt(f["label"]), "tok": f["tok"], "el": f["el"], "mod": f["mod"]}
                                  for f in n["fields"]]} for n in g["nodes"]],
            "chars": table}


def program(g, names):
    """A program that looks at trees through all of the generated interface, under the names that
    the specification gives."""
    cast, fields, toks = [], [], []
    for nd, fs in zip(g["nodes"], names["fields"]):
        n = nd["name"]
        if nd["alt"] == "no":
            cast.append(f"    match ast::{n}::cast(n.clone()) {{ None => none(ast::{n}::can_cast(n.kind())), "
                        f"Some(x) => some(ast::{n}::can_cast(n.kind()), x.syntax() == n, cps({json.dumps(n)})) }},")
            body = []
            for f, fname in zip(nd["fields"], fs):
                tok = f["tok"]
                el = g["nodes"][f["el"] - 1] if not tok else None
                ty = "kind::SyntaxToken" if tok else "ast::" + el["name"]
                if tok:
                    pos = "rt::at_t(n, &y)"
                elif el["alt"] == "tokens":
                    pos = "rt::at_t(n, &y.token)"
                else:
                    pos = "rt::at_n(n, y.syntax())"
                coll = f"x.{text(fname)}()" + ("" if f["mod"] == "rep" else ".into_iter()")
                if f["mod"] != "rep":
                    coll = f"{{ let y: Option<{ty}> = x.{text(fname)}(); y.into_iter() }}"
                body.append(f"      a({coll}.map(|y: {ty}| {pos})),")
            fields.append(f"  if let Some(x) = ast::{n}::cast(n.clone()) {{\n    return a([\n" + "\n".join(body) + "\n    ]);\n  }")
        elif nd["alt"] == "nodes":
            arms = " ".join(f"ast::{n}::{m}(y) => (y.syntax() == n, {json.dumps(m)}),"
                            for m in (g["nodes"][k - 1]["name"] for k in nd["members"]))
            cast.append(f"    match ast::{n}::cast(n.clone()) {{ None => none(ast::{n}::can_cast(n.kind())), Some(x) => {{"
                        f" let (same, m) = match &x {{ {arms} }};"
                        f" some(ast::{n}::can_cast(n.kind()), same && x.syntax() == n, cps(m)) }} }},")
        else:
            cast.append("    a([]),")
        if nd["alt"] == "tokens":
            arms = " ".join(f"ast::{n}Kind::{text(names['tokens'][k - 1])} => {json.dumps(text(names['tokens'][k - 1]))},"
                            for k in nd["members"])
            toks.append(f"    match ast::{n}::try_from(t.clone()) {{ Err(()) => a([]), Ok(x) => {{ let k = match x.kind {{ {arms} }};"
                        f" if x.token == *t && cps(k) == rt::name(t.kind()) {{ a([cps(x.kind.to_str())]) }} else {{ a([a([]), a([])]) }} }} }},")
        else:
            toks.append("    a([]),")
    nl = "\n"
    root = ""
    if any(nd["name"] == "Root" and nd["alt"] == "no" for nd in g["nodes"]):
        root = """  if let Some(x) = ast::Root::cast(n.clone()) {
    let y = x.clone();
    return a([J::B(y.syntax() == n && x.syntax() == n && [format!("{y:?}"), format!("{x:#?}")] == [format!("{n:?}"), format!("{n:#?}")])]);
  }"""
    return f"""// made by lib/syn.py
#![allow(warnings)]
mod kind {{ include!("kind.rs"); }}
mod ast {{ include!("ast.rs"); }}
#[path = "{VERIF}/harness/src/json.rs"]
mod json;
#[path = "{VERIF}/syngen/rt.rs"]
mod rt;
use ast::AstNode as _;
use json::{{J, a, cps, i, o}};
use kind::{{SyntaxNode, SyntaxToken}};

fn none(can: bool) -> J {{ if can {{ a([a([i(-1)])]) }} else {{ a([]) }} }}
fn some(can: bool, same: bool, n: J) -> J {{ if can && same {{ a([n]) }} else {{ a([a([i(-2)])]) }} }}
fn cast(n: &SyntaxNode) -> J {{
  a([
{nl.join(cast)}
  ])
}}
fn fields(n: &SyntaxNode) -> J {{
{nl.join(fields)}
  a([])
}}
fn toks(t: &SyntaxToken) -> J {{
  a([
{nl.join(toks)}
  ])
}}
fn trivia(k: &kind::SyntaxKind) -> bool {{ token::Triviable::is_trivia(k) }}
fn root(n: &SyntaxNode) -> J {{
{root}
  a([])
}}
fn main() {{
  rt::run::<kind::{g['lang']}>(trivia, cast, fields, toks, root, [kind::GENERATED_BY, ast::GENERATED_BY]);
}}
"""


def rand_tree(rng, g, names, k, depth):
    """A node of the k-th (plain) type: its fields in order, more or less."""
    nd = g["nodes"][k]
    kinds = [text(x) for x in names["tokens"]]
    seqs = [m for m, x in enumerate(g["nodes"]) if x["alt"] == "no"]

    def node(m):
        if depth <= 0:
            return {"tok": False, "k": cps(g["nodes"][m]["name"]), "ch": []}
        return rand_tree(rng, g, names, m, depth - 1 if rng.random() < .7 else 0)

    def tok(name):
        return {"tok": True, "k": cps(name), "ch": []}

    def el(f):
        if f["tok"]:
            return tok(kinds[f["el"] - 1])
        x = g["nodes"][f["el"] - 1]
        if x["alt"] == "tokens":
            return tok(kinds[rng.choice(x["members"]) - 1])
        if x["alt"] == "nodes":
            return node(rng.choice(x["members"]) - 1)
        return node(f["el"] - 1)
    ch = []
    for f in nd["fields"]:
        n = {"one": [1], "opt": [0, 1], "rep": [0, 1, 2, 3]}[f["mod"]]
        ch += [el(f) for _ in range(rng.choice(n))]
    # as after errors: left out, out of order, too many
    for _ in range(rng.choice([0, 0, 1, 3])):
        x = rng.random()
        if x < .3 and ch:
            del ch[rng.randrange(len(ch))]
        elif x < .6 and ch:
            ch.insert(rng.randrange(len(ch) + 1), ch[rng.randrange(len(ch))])
        elif x < .8:
            if kinds + g["trivia"]:
                ch.insert(rng.randrange(len(ch) + 1), tok(rng.choice(kinds + g["trivia"])))
        elif x < .9:
            ch.insert(rng.randrange(len(ch) + 1), node(rng.choice(seqs)))
        else:
            rng.shuffle(ch)
    if rng.random() < .5 and g["trivia"]:
        for _ in range(len(ch)):
            if rng.random() < .4:
                ch.insert(rng.randrange(len(ch) + 1), tok(rng.choice(g["trivia"])))
    return {"tok": False, "k": cps(nd["name"]), "ch": ch}


def nodes_in(t):
    return 0 if t["tok"] else 1 + sum(map(nodes_in, t["ch"]))


def keywords(rng, g):
    ts = [t["text"] for t in g["tokens"]]
    out = []
    for t in ts + WORDS[:5] + ["", "é"]:
        bs = list(t.encode())
        out.append(bs)
        x = rng.randrange(6)
        if x == 0:
            out.append(bs[:-1])
        elif x == 1:
            out.append(bs + [95])
        elif x == 2:
            out.append(list(t.swapcase().encode()))
        elif x == 3:
            out.append(list(t.replace("_", "").encode()))
        elif x == 4:
            out.append(bs[1:])
        else:
            out.append([255] + bs)
    return out


def build_syngen():
    """The generator as built for debugging and as built for release; returns the programs' paths."""
    ret = []
    for name, more in (("debug", []), ("release", ["--release"])):
        r = cargo(["build", "--offline"] + more, os.path.join(VERIF, "syngen"), SYN_TARGET)
        if r.returncode != 0:
            raise ToolError("syngen does not build:\n" + r.stdout[-4000:])
        ret.append(os.path.join(SYN_TARGET, name, "syngen"))
    return ret


def make(c):
    """Builds the generator; returns its programs and the names of characters."""
    syngen = build_syngen()
    tables = []
    for b in syngen:
        r = subprocess.run([b], stdout=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise ToolError("syngen does not run")
        tables.append(json.loads(r.stdout))
    table = tables[0]
    chars = {chr(x["c"]): text(x["n"]) for x in table}
    return syngen, table, chars


def unused(rng, g, chars):
    """Entries of a map from tokens' texts for what is no token of the grammar."""
    xs = {kind_name(chars, t) for t in g["tokens"]} | {n["name"] for n in g["nodes"]} | set(g["trivia"]) | {snake(n["name"]) for n in g["nodes"]}
    xs |= {t["text"] + x for t in g["tokens"] for x in ("x", "+", "")} | {"", "x", t0(g)}
    xs = sorted(xs - {t["text"] for t in g["tokens"]})
    return [[cps(x), cps("of no token")] for x in rng.sample(xs, rng.choice([0, 0, 1, min(5, len(xs))]))] if rng.random() < .5 else [
        [cps(x), cps("of no token")] for x in xs]


def t0(g):
    return g["tokens"][0]["text"].upper() if g["tokens"] else "y"


def compile_all(c, syngen, table, gs):
    """gs: grammars. Violation if what is generated does not compile."""
    chars = {chr(x["c"]): text(x["n"]) for x in table}
    # one place for all runs, so that the build directory does not grow
    pkg = os.path.join(VERIF, "work", "syn-" + c.prop)
    shutil.rmtree(pkg, ignore_errors=True)
    os.makedirs(os.path.join(pkg, "src"))
    jobs = []
    for k, g in enumerate(gs):
        d = os.path.join(pkg, "src", "bin", f"g{k}")
        os.makedirs(d)
        txt, rest = grammar_text(g, c.rng)
        assert not rest
        g["grammar"] = txt
        jobs.append({"dir": cps(d), "lang": cps(g["lang"]), "trivia": [cps(x) for x in g["trivia"]], "grammar": cps(txt),
                     "doc": [[cps(t["text"]), cps(t["doc"])] for t in g["tokens"] if t["doc"] is not None] + unused(c.rng, g, chars),
                     "special": [[cps(t["text"]), cps(t["desc"])] for t in g["tokens"] if t["special"]] + unused(c.rng, g, chars),
                     "file": cps(g.get("file", "lib/syn.py"))})
    for n, b in enumerate(syngen):
        inp = os.path.join(pkg, f"in{n}.ndjson")
        with open(inp, "w") as f:
            f.write("".join(json.dumps(j) + "\n" for j in jobs[n::len(syngen)]))
        r = subprocess.run([b, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("syngen: " + r.stdout[-2000:])
    for k, g in enumerate(gs):
        p = os.path.join(pkg, "src", "bin", f"g{k}", "panic")
        if os.path.exists(p):
            c.violation("no code is generated for a supported grammar", grammar=g["grammar"], details=open(p).read())
    with open(os.path.join(pkg, "grammars.ndjson"), "w") as f:
        f.write("".join(json.dumps(spec_grammar(g, table)) + "\n" for g in gs))
    named, _ = gen_tests("SynNames", work=c.work, workers=1, env={"GRAMMARS": f.name})
    named = {x["n"]: x["names"] for x in named}
    names = [named[k + 1] for k in range(len(gs))]
    for k, g in enumerate(gs):
        with open(os.path.join(pkg, "src", "bin", f"g{k}", "main.rs"), "w") as f:
            f.write(program(g, names[k]))
    with open(os.path.join(pkg, "Cargo.toml"), "w") as f:
        f.write("[workspace]\n[package]\nname = \"syn-programs\"\nversion = \"0.1.0\"\nedition = \"2024\"\n"
                f"[dependencies]\ntoken = {{ path = \"{REPO}/crates/token\" }}\nrowan = \"0.16.1\"\n"
                "[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n")
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), pkg)
    target = f"{SYN_TARGET}-{c.prop}"
    r = cargo(["build", "--offline", "--bins", "--keep-going"], pkg, target)
    if r.returncode != 0:
        for k, g in enumerate(gs):
            if re.search(rf"src/bin/g{k}/", r.stdout):
                m = re.search(rf"error.*\n(?:.*\n){{0,3}}?.*src/bin/g{k}/.*(?:\n.*){{0,12}}", r.stdout)
                c.violation("the code generated for a supported grammar does not compile, or lacks what the grammar says",
                            grammar=g["grammar"], details=(m.group(0) if m else r.stdout)[:3000])
        raise ToolError("the programs do not build:\n" + r.stdout[-4000:])
    return [os.path.join(target, "debug", f"g{k}") for k in range(len(gs))], names, pkg


def rule_text(r, count, top=True):
    """How a rule of the specification is written; every leaf has a name of its own."""
    def name(kind):
        count[kind] = count.get(kind, 0) + 1
        return "abcdefghijklmnopqrstuvwxyz"[count[kind] - 1]
    k = r["k"]
    if k == "node":
        return "N" + name("node")
    if k == "token":
        return "'kw_" + name("token") + "'"
    if k in ("opt", "rep"):
        return rule_text(r["on"][0], count, False) + {"opt": "?", "rep": "*"}[k] if r["on"][0]["k"] in ("node", "token") else \
            "(" + rule_text(r["on"][0], count) + ")" + {"opt": "?", "rep": "*"}[k]
    if k == "label":
        return "l_" + name("label") + ":" + ("(" + rule_text(r["on"][0], count) + ")" if r["on"][0]["k"] not in ("node", "token") else rule_text(r["on"][0], count))
    parts = [rule_text(x, count, False) if x["k"] in ("node", "token") else "(" + rule_text(x, count) + ")" for x in r["on"]]
    return {"seq": " ", "alt": " | "}[k].join(parts)


def rule_grammar(r):
    count = {}
    t = "Top = " + rule_text(r, count) + "\n"
    return t + "".join("N%s = 'on_%s'\n" % (x, x) for x in "abcdefghijklmnopqrstuvwxyz"[:count.get("node", 0)])


UNPARSABLE = ["A =", "A = (", "A = 'x", "A = B", "= 'x'", "A 'x'", "A = 'x' )", "A = 'x'\nA = 'y'", "A = 'x' ? ?", "'x'", "A = | 'x'", "A = 'x' |", "A = *", "A = l: 'x' = 'y'", "A == 'x'", "A = # 'x'"]
FILES = ["build.rs", "lib/syn.py", "", "a \"quoted\"\\name.rs", "é 😀.rs", "crates/x/build.rs:12\n{}", "*/ //! x", "#file"]


def relaid(txt, rng):
    """The same grammar, laid out and commented otherwise."""
    out = []
    for line in txt.split("\n"):
        if rng.random() < .4:
            out.append("// " + rng.choice(["comment", "A = 'x'", "é '", ""]))
        out.append(rng.choice(["", "", "  ", "\t"]) + line + rng.choice(["", "", "  ", " // more"]) if line.strip() or rng.random() < .5 else line)
    return "\n".join(out)


def options(g, txt, file, rng):
    doc = [[cps(t["text"]), cps(t["doc"])] for t in g["tokens"] if t["doc"] is not None] + g.get("unused", [])
    special = [[cps(t["text"]), cps(t["desc"])] for t in g["tokens"] if t["special"]] + g.get("unused", [])
    rng.shuffle(doc)
    rng.shuffle(special)
    return {"lang": cps(g["lang"]), "trivia": [cps(x) for x in g["trivia"]], "grammar": cps(txt), "doc": doc, "special": special, "file": cps(file)}


def check_gen(c):
    c.assumptions += ["a supported grammar is as for C23; names that are no identifiers or clash are outside"]
    tests, r = gen_tests("MCRule", mkcfg(c.work, "MCRule", Depth=c.pick(3, 4)), work=c.work)
    some = [t for t in tests if t["ok"]]
    c.notes["supported_rules"] = len(some)
    # all of the small ones, some of the others
    size = lambda t: len(json.dumps(t["rule"]))
    rest = sorted((t for t in tests if not t["ok"]), key=size)
    few = c.pick(700, 3000)
    tests = c.rng.sample(some, min(len(some), c.pick(1000, 20000))) + rest[:few] + c.rng.sample(rest[few:], c.pick(1300, 17000))
    c.add_model(r, "going through a rule with the modifier and label met so far supports what it should (MCRule)")
    syngen, table, chars = make(c)
    plain = {"lang": "Lang", "trivia": ["Whitespace"], "tokens": []}
    # [id, options, rules, parses]
    jobs = [[f"rule {k}", options(plain, rule_grammar(t["rule"]), "f", c.rng), [t["rule"]], True] for k, t in enumerate(tests)]
    c.sample({"rule": rule_grammar(tests[len(tests) // 2]["rule"]), "supported": tests[len(tests) // 2]["ok"]})
    bad = list(UNPARSABLE) + ["A = '%s'" % x for x in ("\"", "\u00e9", "7", "+7", " ", "\u20ac+")]
    bad = [x for x in bad if not x.startswith("A = '") or not x.endswith("'") or len(x) < 7 or any(ch not in chars for ch in x[5:-1])]
    jobs += [[f"bad {k}", options(plain, t, "f", c.rng), [], False] for k, t in enumerate(bad)]
    gs = [rand_grammar(c.rng, chars, c.rng.choice([3, 6, 10, 16])) for _ in range(c.pick(60, 600))] + [many(c.rng, chars, 260), wide(c.rng, chars, 30, 60)]
    for k, g in enumerate(gs):
        finish(g, chars)
        txt, _ = grammar_text(g, c.rng)
        g["grammar"] = txt
        g["file"] = c.rng.choice(FILES)
        g["unused"] = unused(c.rng, g, chars)
        jobs += [[f"grammar {k}", options(g, t, g["file"], c.rng), [], True] for t in (txt, relaid(txt, c.rng), txt, relaid(txt, c.rng))]
    c.sample(relaid(gs[0]["grammar"], c.rng))
    again = list(jobs)
    c.rng.shuffle(again)
    c.rng.shuffle(jobs)
    scs, results = [], []
    root = os.path.join(c.work, "gen")
    for n, batch in enumerate((jobs, again)):
        inp = os.path.join(c.work, f"gen-{n}.ndjson")
        with open(inp, "w") as f:
            for k, (id, o, rules, parses) in enumerate(batch):
                d = os.path.join(root, f"{n}-{k}")
                os.makedirs(d)
                for name in c.rng.choice([(), ("ast.rs",), ("kind.rs", "other.rs")] + [("ast.rs", "kind.rs", "other.rs")] * 3):
                    with open(os.path.join(d, name), "w") as h:
                        h.write("// before\n" if name == "other.rs" or c.rng.random() < .5 else "x" * c.rng.choice([0, 90000]))
                batch[k] = [id, rules, parses, d, digests(d)]
                f.write(json.dumps({**o, "dir": cps(d)}) + "\n")
        r = subprocess.run([syngen[n], inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 70:
            raise ToolError("syngen: " + r.stdout[-2000:])
        if r.returncode != 0:
            c.violation("the process that makes code died", details=r.stdout[-2000:])
        for id, rules, parses, d, before in batch:
            p = os.path.join(d, "panic")
            panic = os.path.exists(p)
            if panic:
                os.unlink(p)
            after = digests(d)
            scs.append({"o": "gen", "id": id, "rules": rules, "parses": parses, "before": before[0], "others": before[1], "dir": d})
            results.append({"panic": panic, "files": after[0], "others": after[1]})
    # all makings of the same code go into one behaviour
    order = sorted(range(len(scs)), key=lambda k: scs[k]["id"])
    groups, cur = [], []
    for k in order:
        if cur and len(cur) > 200 and scs[cur[-1]]["id"] != scs[k]["id"]:
            groups.append(cur)
            cur = []
        cur.append(k)
    groups.append(cur)
    bad, st = validate("TraceGen", [[scs[k] for k in g] for g in groups], [[results[k] for k in g] for g in groups], c.work,
                       to_events=lambda sc, obs: [{"o": "reset"}] + [{**e, "obs": ob} for e, ob in zip(sc, obs)])
    if bad:
        n, k, exp = min(bad)
        e = scs[groups[n][k]]
        src = open(os.path.join(c.work, f"gen-{os.path.basename(e['dir']).split('-')[0]}.ndjson")).read().split("\n")[int(e["dir"].split("-")[-1])]
        c.violation(f"made code rejected by TraceGen: {e['id']}", options={k: v if isinstance(v, str) else text(v) if v and isinstance(v[0], int) else v for k, v in json.loads(src).items()},
                    event=e, observed=results[groups[n][k]], expected=json.loads(exp))
    c.traces += len(scs) - len(tests)
    c.impl_tests += len(tests)
    c.events += st["events"]
    c.notes["trace_checks"] = [{"module": "TraceGen", **st}]
    shutil.rmtree(root, ignore_errors=True)
    # what made it, as the compiled code says
    few = gs[:len(FILES)]
    for g, f in zip(few, FILES):
        g["file"] = f
    bins, names, pkg = compile_all(c, syngen, table, few)
    scs = [{"c": "syn", "kinds": 1, "g": spec_grammar(g, table), "ops": [{"o": "by", "file": cps(g["file"])}]} for g in few]
    results = [drive(b, [{"kinds": 1, "ops": s["ops"]}], c.work, jobs=1)[0] for b, s in zip(bins, scs)]
    judge_syn(c, scs, results)
    shutil.rmtree(pkg, ignore_errors=True)


def digests(d):
    """Of ast.rs and kind.rs; of all else."""
    h = lambda n: hashlib.sha256(open(os.path.join(d, n), "rb").read()).hexdigest() if os.path.exists(os.path.join(d, n)) else ""
    return [h("ast.rs"), h("kind.rs")], [n + " " + h(n) for n in sorted(os.listdir(d)) if n not in ("ast.rs", "kind.rs")]


def judge_syn(c, scs, results):
    d = died(scs, results)
    if d:
        c.violation("generated code: " + d[1], scenario=d[0])
    bad, st = validate("TraceSyn", scs, results, c.work,
                       to_events=lambda sc, obs: [{"o": "reset", "g": sc["g"]}] + [{**op, "obs": ob} for op, ob in zip(sc["ops"], obs)])
    if bad:
        n, k, exp = min(bad)
        c.violation(f"generated code rejected by TraceSyn at operation {k}: {json.dumps(scs[n]['ops'][k])[:300]}", scenario=scs[n],
                    op=scs[n]["ops"][k], observed=results[n][k], expected=json.loads(exp))
    c.traces += sum(len(s["ops"]) for s in scs)
    c.events += st["events"]
    c.notes["trace_checks"] = c.notes.get("trace_checks", []) + [{"module": "TraceSyn", **st}]


def check(c):
    if c.prop == "C31":
        return check_gen(c)
    prop = c.prop
    c.assumptions += ["a supported grammar: a rule is a sequence of elements, each maybe labeled, optional or repeated, or "
                      "a choice of at least two plain nodes or of tokens; names do not clash with each other, with "
                      "Rust's keywords or with the generated code's own names",
                      "which name a punctuation character has is taken from char-name, that the names keep tokens apart "
                      "is checked"]
    if prop == "C23":
        c.add_model(model_check("MCSyn", mkcfg(c.work, "MCSyn", MaxReps=c.pick(1, 2), MaxFields=c.pick(3, 3)), work=c.work),
                    "on trees built by the grammar accessors give what the fields put there (MCSyn)")
    syngen, table, chars = make(c)
    if prop == "C24":
        c.add_model(model_check("MCPunct", mkcfg(c.work, "MCPunct", MaxLen=c.pick(2, 3)), work=c.work),
                    "taking the first entry of the table that fits takes the longest (MCPunct)")
        decodable(c, table)
    gs = [rand_grammar(c.rng, chars, c.rng.choice([3, 6, 10, 16])) for _ in range(c.pick(20, 150))]
    for k in range(c.pick(1, 8)):
        gs.append(rand_grammar(c.rng, chars, c.rng.choice([3, 6, 10]), trivias=[0]))
        gs.append(rand_grammar(c.rng, chars, c.rng.choice([3, 6, 10]), trivias=[0, 1, 2] if k else [2], notokens=True))
        gs.append(rand_grammar(c.rng, chars, c.rng.choice([3, 6, 10]), trivias=[0], notokens=True))
    gs += [many(c.rng, chars, n) for n in c.pick([260], [260, 400])]
    gs += [wide(c.rng, chars, *x) for x in c.pick([(30, 60)], [(12, 5), (30, 60), (70, 300)])]
    for g in gs:
        finish(g, chars)
    bins, names, pkg = compile_all(c, syngen, table, gs)
    c.sample(gs[0]["grammar"])
    scs, results = [], []
    for g, b, nm in zip(gs, bins, names):
        count = len(g["trivia"]) + len(g["tokens"]) + sum(n["alt"] == "no" for n in g["nodes"])
        seqs = [k for k, n in enumerate(g["nodes"]) if n["alt"] == "no"]
        ops = []
        large = [k for k in seqs if len(g["nodes"][k]["fields"]) > 9] or seqs
        if prop == "C24":
            ops += [{"o": "kinds"}, {"o": "punct"}] + [{"o": "keyword", "ts": keywords(c.rng, g)} for _ in range(6)]
        else:
            while len(ops) < c.pick(60, 200):
                t = rand_tree(c.rng, g, nm, c.rng.choice(large if len(ops) % 2 else seqs), c.rng.choice([0, 1, 2, 3]))
                if nodes_in(t) <= 60:
                    ops.append({"o": "tree", "t": t})
        mine = [{"c": "syn", "kinds": count + 2, "g": spec_grammar(g, table), "ops": ops[k:k + 20]} for k in range(0, len(ops), 20)]
        res = drive(b, [{"kinds": s["kinds"], "ops": s["ops"]} for s in mine], c.work, jobs=1)
        d = died(mine, res)
        if d:
            c.violation("generated code: " + d[1], grammar=g["grammar"], scenario=d[0])
        scs += mine
        results += res
    c.sample({"tree": scs[0]["ops"][0]})
    judge_syn(c, scs, results)
    c.notes["grammars"] = len(gs)
    shutil.rmtree(pkg, ignore_errors=True)


def finish(g, chars):
    """Every token is mentioned by some rule, or else it is not part of the grammar."""
    used = {f["el"] for nd in g["nodes"] for f in nd["fields"] if f["tok"]}
    used |= {m for nd in g["nodes"] if nd["alt"] == "tokens" for m in nd["members"]}
    rest = [k for k in range(1, len(g["tokens"]) + 1) if k not in used]
    if rest:
        names = {n["name"] for n in g["nodes"]}
        fields = []
        for k in rest:
            fields.append({"label": "tok_" + "abcdefghijklmnopqrstuvwxyz"[k % 26] * (1 + k // 26), "tok": True, "el": k, "mod": "opt", "in": False})
        g["nodes"].append({"name": next(x for x in ("AllTokens", "TheTokens") if x not in names), "alt": "no", "members": [], "fields": fields})


def decodable(c, table):
    """No two runs of punctuation characters have the same name, so tokens are kept apart."""
    path = os.path.join(c.work, "table.json")
    with open(path, "w") as f:
        f.write(json.dumps({"names": [x["n"] for x in table]}) + "\n")
    r = tlc("SynCode", env={"TABLE": path}, work=c.work, workers=1)
    if "is violated" in r.out:
        c.violation("two runs of punctuation characters have the same name", details=r.out[-1500:])
    if r.code != 0:
        raise ToolError("SynCode fails:\n" + r.out[-3000:])
    c.add_model(r, "the names of punctuation characters are uniquely decodable (SynCode, on the real table)")
