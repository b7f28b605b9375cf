"""C19 cursor, C20 unique identifiers, C21 cases, C22 sections, C25 assertions, C26 rendering,
C27 constructors."""
from common import *


def cps(t):
    return [ord(x) for x in t]


def chunk(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def events(build):
    def f(sc, obs):
        return [{"o": "reset", "build": build}] + [{**op, "obs": ob} for op, ob in zip(sc["ops"], obs)]
    return f


def judge(c, b, ops, what, build="debug", per_scenario=1, replay=False, **kw):
    scs = [{"c": "misc", "ops": x} for x in chunk(ops, per_scenario)]
    c.run_traces(b, scs, "TraceSmall", what=what, to_events=events(build), **kw)
    if replay:
        c.traces -= len(scs)
        c.impl_tests += len(ops)
    c.sample(ops[len(ops) // 2])


# ---------------------------------------------------------------------------------- C19


def c19(c):
    c.assumptions += ["slices, and the next character boundary, are asked for only while the cursor is within its string"]
    b, rb = both()
    tests, r = gen_tests("MCCursor", mkcfg(c.work, "MCCursor", **c.pick({}, dict(Texts="<- MCTextsBig", MaxOps=9, MaxMarks=3))), work=c.work)
    c.add_model(r, "one index behaves as a split of the string (MCCursor)")

    def evs(sc, obs):
        out = [{"o": "reset", "bytes": sc["bytes"]}]
        for op, ob in zip(sc["ops"], obs):
            out.append({**op, "obs": ob})
            if ob.get("panic") and op["o"] != "non_empty":
                break
        return out
    scs = [{"c": "cursor", "bytes": t["text"], "ops": fix_marks(t["ops"])} for t in tests]
    c.sample(scs[len(scs) // 2])
    c.run_traces(b, scs, "TraceCursor", what="behaviour of the specification", to_events=evs)
    c.traces -= len(scs)
    c.impl_tests += len(scs)
    scs = [cursor_scenario(c.rng, c.rng.choice([0, 1, 3, 8, 20, 60])) for _ in range(c.pick(1500, 25000))]
    scs += [cursor_scenario(c.rng, n) for n in c.pick([700, 3000], [700, 3000, 70000])]
    # places that 16 bits cannot count
    for n in (65530, 65600, 131080):
        bs = [97] * n + list("bé😀\n bcé".encode()) + [97] * 20
        ops = [{"o": "mark"}, {"o": "bump"}, {"o": "mark"}, {"o": "while", "set": [97]}, {"o": "mark"}, {"o": "did", "m": 2}, {"o": "eat", "p": [98]}]
        for _ in range(12):
            ops.append(c.rng.choice([{"o": "bump"}, {"o": "mark"}, {"o": "while", "set": [0xc3, 0xa9, 98, 32]}, {"o": "eat", "p": [98, 0xc3]}]))
        have = 3 + sum(o["o"] == "mark" for o in ops[7:])
        ops += [{"o": "since", "m": 3}, {"o": "non_empty", "m": 1}] + [{"o": "did", "m": k} for k in range(4, have + 1)]
        scs.append({"c": "cursor", "bytes": bs, "ops": ops})
    # every character of one byte, and some of each longer kind, at every place
    for ch in [chr(k) for k in range(128)] + list("\x80\u07ff\u0800\ufeff\uffff\U00010000\U0010ffff\u0301\u2028"):
        for t in (ch, ch + "a", "a" + ch + "b" + ch, ch + ch):
            bs = list(t.encode())
            w = len(ch.encode())
            step = c.rng.choice([lambda: {"o": "next_str"}, lambda: {"o": "eat", "p": list(ch.encode())}])
            ops = [{"o": "mark"}] + [step() if bs[k:k + w] == list(ch.encode()) else {"o": "bump"} for k in range(len(bs)) if bs[k] < 128 or bs[k] > 191]
            ops += [{"o": "mark"}, {"o": "since", "m": 1}, {"o": "did", "m": 2}]
            scs.append({"c": "cursor", "bytes": bs, "ops": ops})
            scs.append({"c": "cursor", "bytes": bs, "ops": [{"o": "mark"}, {"o": "while", "set": sorted(set(bs))}, {"o": "non_empty", "m": 1}]})
            scs.append({"c": "cursor", "bytes": bs, "ops": [{"o": "bump"}] * (len(bs) + 1)})
    c.sample(scs[0])
    c.run_traces([b, rb], scs, "TraceCursor", to_events=evs, per_chunk=4000)


def fix_marks(ops):
    """The specification keeps marks as a stack; the driver numbers them in order of making."""
    out, stack, n = [], [], 0
    for op in ops:
        op = dict(op)
        if op["o"] == "mark":
            n += 1
            stack.append(n)
        elif "m" in op:
            op["m"] = stack.pop()
        out.append(op)
    return out


def cursor_scenario(rng, n):
    al = rng.choice(["ab", "ab é", "aé€😀", "a\0\x7f\x1b", "a\n\t\"\\'", "😀", "0123xX_"])
    bs = list("".join(rng.choice(al) for _ in range(n)).encode())
    ops, idx, marks, open_ = [], 0, 0, []
    starts = [k for k, x in enumerate(bs) if x < 128 or x >= 192] + [len(bs)]
    big = len(bs) > 500
    for _ in range(rng.choice([5, 20, 40]) if not big else 60):
        o = rng.choice(["bump", "bump", "while", "eat", "eat", "next_str", "mark", "mark", "since", "non_empty", "did"])
        if o == "next_str" and idx >= len(bs) or o == "bump" and idx >= len(bs) and rng.random() < .7:
            o = "mark"
        if o in ("since", "non_empty") and idx > len(bs):
            o = "did"
        op = {"o": o}
        if o == "bump":
            idx += 1
        elif o == "while":
            op["set"] = sorted(set(rng.sample(range(256), 20) if rng.random() < .2 else
                                   rng.choice([bs[idx:idx + 3], sorted(set(bs)), bs[:1], [], sorted(set(bs))[:-1]])))
            while idx < len(bs) and bs[idx] in op["set"]:
                idx += 1
        elif o == "eat":
            k = rng.choice([0, 1, 2, 3, 5, len(bs) + 1])
            p = bs[idx:idx + k]
            x = rng.random()
            if x < .3 and p:
                j = rng.randrange(len(p))
                p[j] = p[j] ^ 1
            elif x < .4:
                p = p + [97]
            op["p"] = p
            if idx <= len(bs) and bs[idx:idx + len(p)] == p:
                idx += len(p)
        elif o == "next_str":
            idx = next(s for s in starts if s > idx)
        elif o == "mark":
            marks += 1
            open_.append(marks)
        else:
            if not open_:
                continue
            op["m"] = open_.pop(rng.randrange(len(open_)))
        ops.append(op)
    return {"c": "cursor", "bytes": bs, "ops": ops}


# ---------------------------------------------------------------------------------- C20


def c20(c):
    b = build_driver()
    c.assumptions += ["a maker makes fewer than 2^32 identifiers"]
    tests, r = gen_tests("UniqAbs", mkcfg(c.work, "UniqAbs", **c.pick({}, dict(MaxMade=8))), work=c.work)
    c.add_model(r, "a counter per maker never repeats, whatever the others do (UniqAbs)")
    scs = [{"c": "misc", "ops": [{"o": "mk", "maker": m, "n": 1, "show": True} for m in t]} for t in tests]
    c.sample(scs[-1])
    c.run_traces(b, scs, "TraceSmall", what="behaviour of the specification", to_events=events("debug"))
    c.traces -= len(scs)
    c.impl_tests += len(scs)
    scs = []
    for _ in range(c.pick(100, 1000)):
        scs.append({"c": "misc", "ops": [{"o": "mk", "maker": c.rng.randrange(c.rng.choice([1, 3, 8])), "n": c.rng.choice([0, 1, 2, 50, 255, 256, 257]), "show": True}
                                         for _ in range(20)]})
    scs.append({"c": "misc", "ops": [{"o": "mk", "maker": k % 2, "n": n, "show": True} for k, n in enumerate([65535, 1, 1, 65536, 70000])]})
    scs.append({"c": "misc", "ops": [{"o": "mk", "maker": 0, "n": n, "show": True} for n in (1_000_000, 1, c.pick(200_000, 10_000_000))]})
    scs.append({"c": "misc", "ops": [{"o": "mk", "maker": 0, "n": n, "show": False} for n in ((1 << 24) - 1, 1, 1, 1 << 20)]})
    for name, bb, n in (("debug", b, 40_000_000), ("release", build_driver(release=True), 200_000_000)):
        more = [{"c": "misc", "ops": [{"o": "mk", "maker": 0, "n": n, "show": False}]}]
        if name == "release":
            scs = scs + [{"c": "misc", "ops": [{"o": "far", "p": c.pick(30, 32)}]}]
        c.run_traces(bb, scs + c.pick([], more), "TraceSmall", what=f"makes ({name} build)", to_events=events(name))


# ---------------------------------------------------------------------------------- C21


def c21(c):
    b, rb = both()
    tests, r = gen_tests("MCCase", mkcfg(c.work, "MCCase", **c.pick({}, dict(MaxLen=7))), work=c.work, rng=c.rng, limit=c.pick(None, 60000))
    c.add_model(r, "a pass over the characters gives what the words give, and the two directions are inverse where promised (MCCase)")
    ops = [{"o": o, "xs": x} for o in ("s2p", "p2s") for x in chunk(tests + [[]], 50)]
    judge(c, b, ops, "every short identifier", replay=True)
    rnd = []
    for _ in range(c.pick(6000, 100000)):
        al = c.rng.choice(["ab_", "aB_", "abcXYZ019_", "A_", "aZ_éÉßıİǅ", "@[`{az AZ_-", "ſK_kK", "a_Bn\0\n"])
        rnd.append(cps("".join(c.rng.choice(al) for _ in range(c.rng.choice([0, 1, 2, 4, 8, 15, 16, 30])))))
    # every character, alone and inside
    lim = c.pick(0x500, 0x3000)
    rnd += [[k] for k in range(lim)] + [[97, k, 66] for k in range(lim)] + [[95, k, k] for k in range(lim)]
    rnd += [cps("ab_cd_" * 300), cps("AbCdEf" * 400), cps("_" * 500 + "a")]
    rnd += [cps("a" * 66000 + "_bC"), cps("aé_" * 30000 + "z"), cps("Ab1" * 30000), cps("_" * 66000 + "q_Q")]
    ops = [{"o": o, "xs": x} for o in ("s2p", "p2s") for x in chunk(rnd, 40)]
    judge(c, [b, rb], ops, "recorded conversions", per_chunk=150)


# ---------------------------------------------------------------------------------- C22

HEADS = ["## `a`", "## `b`", "## `foo bar`", "## `é`", "## ``", "## `` ` ``", "## `` ` `` ", "## `a` ", " ## `a`", "##  `a`", "### `a`", "# `a`", "## a", "## `a",
         "##`a`", "## a`", "## `", "## `a` and `b`", "## `a`b", "## ```", "## `` a ``", "##\t`a`", "## `A`", "## `a`\r", "\r## `a`", "## `\t`", "## `` ` ` ``",
         "## ` a`", "## `a `", "## `  `", "## ``a``", "## `\u00a0a\u3000`", "## `*a*`", "## `a\\`", "## `&amp;`", "## `a\u200b`"]
BODY = ["", "text", "  indented", "- `a`", "```", "a\tb", "é😀", "\r", "a\rb", "\x0b", "\u2028x", "\x0c## `a`"]


# what encloses or ends something in some kind of Markdown, and means nothing here
MARKS = ["```", "```rust", "~~~", "````", "<!--", "-->", "<!-- x -->", "<!-- x", "x -->", "---", "===", "***", "+++", "$$", ":::", "<pre>", "</pre>", "<details>",
         "</details>", "<script>", "</script>", "<![CDATA[", "]]>", "> q", "> ## `a`", "- x", "- ## `a`", "1. x", "    code", "    ## `a`", "[a]: b", "| a | b |", "|---|---|",
         "\\", "x\\", "x  ", "# top", "### sub", "#### `deep`", "Text", "{%", "%}", "{{", "}}", "/*", "*/", "//", "#", "##", "`", "`a", "b`", "``", "\\`", "[x", "](y)", "*x", "x*",
         "%%", "<a", ">", "&", "\ufeff", "\u200b", "end"]
STARTS = [("<", ">")] * 3 + [("", ""), ("\n", "\n"), ("", "\n\n"), (" ", " \t"), ("## `", "`\n## `z`"), ("start", "")]


def c22(c):
    b, rb = both()

    def md(t):
        pre, suf = c.rng.choice(STARTS)
        return {"o": "md", "md": t, "pre": cps(pre), "suf": cps(suf)}
    tests, r = gen_tests("MCMd", mkcfg(c.work, "MCMd", **c.pick({}, dict(MaxLines=4))), work=c.work, rng=c.rng, limit=c.pick(None, 25000))
    c.add_model(r, "one pass with a pending section finds the sections (MCMd)")
    ops = [md(t) for t in tests]
    judge(c, b, ops, "every short document", per_scenario=20, replay=True)
    ops = []
    for h in HEADS:
        for g in HEADS:
            ops.append(md(cps(f"{h}\nx\n{g}\n\ny")))
    # headings before, after and between whatever opens and closes something
    for m in MARKS:
        ops.append(md(cps(f"{m}\n## `a`\nx\n\n{m}\n## `b`\ny\n{m}\n")))
        ops.append(md(cps(f"## `a`\n{m}\n## `b`\n{m}\n{m}\n## `c`\n  {m}\n## `d`")))
        for m2 in MARKS if c.tier == "thorough" else c.rng.sample(MARKS, 8):
            ops.append(md(cps(f"## `a`\n\n{m}\n## `b`\nx\n{m2}\n## `c`\n\n{m}\n{m2}\n\n## `d`\n")))
    for _ in range(c.pick(2500, 40000)):
        n = c.rng.choice([0, 1, 2, 4, 8, 20])
        p = c.rng.choice([.1, .3, .6])
        heads = c.rng.sample(HEADS, c.rng.randrange(1, len(HEADS)))
        uniq = iter(range(1000))
        ls = []
        for _ in range(n):
            if c.rng.random() < p:
                ls.append(c.rng.choice(heads) if c.rng.random() < .3 else f"## `k{next(uniq)}`")
            else:
                ls.append(c.rng.choice(BODY if c.rng.random() < .6 else MARKS))
        nl = c.rng.choice(["\n", "\n", "\r\n"])
        ops.append(md(cps(nl.join(ls) + c.rng.choice(["", nl, nl + nl]))))
    for n in c.pick([300], [300, 1500]):
        ops.append(md(cps("\n".join(f"## `k{k}`\n\ntext {k}\n" for k in range(n)))))
    # long lines, long sections, many lines, many sections
    ops += [md(cps("\n".join(ls))) for ls in (
        ["## `a`", "x" * 70000, "## `b`", "é" * 40000], ["## `" + "k" * 66000 + "`", "", "## `" + "k" * 66001 + "`"],
        ["intro"] * 66000 + ["## `a`"] + ["text"] * 66000 + ["", "## `b`", "y"], [x for k in range(3000) for x in (f"## `k{k}`", "t")])]
    judge(c, [b, rb], ops, "recorded documents", per_scenario=5, per_chunk=600)


# ---------------------------------------------------------------------------------- C25

FORMS = {"bare": None, "bare_op": None, "bare_cmp": None, "literal": lambda m, n: "just so",
         "braces": lambda m, n: "{} braces {%d}" % n, "arg": lambda m, n: m, "args": lambda m, n: f"{m}: {n} and {m}",
         "named": lambda m, n: f"{m}/{n + 1}", "inline": lambda m, n: f"{m} {n:>5}",
         "hygiene": lambda m, n: f"cond {n} {n}", "nested": lambda m, n: m, "expr": lambda m, n: str(len(m.encode())),
         "trailing": lambda m, n: m}


def big(n, w=8):
    return [(n >> (8 * (w - 1 - k))) & 255 for k in range(w)]


def c25(c):
    c.add_model(model_check("MCAlways", work=c.work), "evaluate, assert in debug builds, log, yield: keeps the promise (MCAlways)")
    ops = []
    for form, f in FORMS.items():
        for cond in (True, False):
            for m in ["", "hello", "a {} {{ %s é😀\n", "x" * 3000]:
                for n in (0, 7, -3, 123456):
                    ops.append({"o": "always", "form": form, "c": cond, "m": cps(m), "n": n, "late": c.rng.random() < .25,
                                "msg": [] if f is None else [cps(f(m, n))]})
    edges = sorted({x for k in (0, 1, 8, 16, 31, 32, 33, 48, 63) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {(1 << 64) - 1, (1 << 64) - 2})
    rnd = [c.rng.getrandbits(c.rng.randrange(1, 65)) for _ in range(c.pick(500, 5000))]
    nums = edges + rnd
    ops += [{"o": "u32", "n": big(x)} for x in nums]
    ops += [{"o": "usize", "n": big(x)} for x in nums if x < 1 << 32]
    # the same assertion again and again
    ops += [{"o": "assertions", "form": f, "n": n} for f in FORMS for n in (1, 300)]
    ops += [{"o": "assertions", "form": f, "n": 70000} for f in ("bare", "arg", "literal")]
    c.rng.shuffle(ops)
    for name, b in (("debug", build_driver()), ("release", build_driver(release=True))):
        judge(c, b, ops, f"the {name} build", build=name, per_scenario=25)


# ---------------------------------------------------------------------------------- C26


def c26(c):
    b, rb = both()
    c.assumptions += ["lines and columns are below 2^32 - 1, as those of any text are"]
    c.add_model(model_check("MCRender", mkcfg(c.work, "MCRender", **c.pick({}, dict(MaxN=70000, MaxSeq=5))), work=c.work),
                "counting in decimals, separating a sequence, reading codes back (MCRender)")
    num = [0, 1, 8, 9, 10, 98, 99, 100, 999, 65534, 65535, 65536, 99999, (1 << 31) - 2, (1 << 31) - 1, 1 << 31, (1 << 32) - 2]

    def n():
        return cps(str(c.rng.choice(num) if c.rng.random() < .6 else c.rng.getrandbits(c.rng.randrange(1, 32))))

    def rng_():
        a, x, y, z = n(), n(), n(), n()
        return [a, x, a if c.rng.random() < .4 else y, z]
    # a formatter's other form changes nothing
    alt = lambda: {"alt": True} if c.rng.random() < .25 else {}
    ops = [{"o": "pos", "xs": [[cps(str(x)), cps(str(y))] for y in num]} for x in num]
    ops += [{"o": "range", "xs": [[cps(str(v)) for v in (x, y, z, w)] for z in num[:6] for w in num[:6]]} for x in num[:6] for y in num[:6]]
    ops += [{"o": "range", "xs": [rng_() for _ in range(30)], **alt()} for _ in range(c.pick(40, 400))]
    msgs = ["", "m", "a: b", "é😀", "two\nlines", "{}"]
    ops += [{"o": "diag", "range": rng_(), "sev": s, "msg": cps(m), **alt()} for m in msgs for s in (1, 2) for _ in range(5)]
    ops += [{"o": "sev"}]
    for k in range(6):
        for _ in range(c.pick(15, 200)):
            it = [cps(c.rng.choice(["", "a", ", ", "xyz", "é"])) for _ in range(k)]
            ops.append({"o": "sep", "sep": cps(c.rng.choice(["", ",", ", ", "→", " :: "])), "items": it, **alt()})
            ops.append({"o": "comma", "items": it, **alt()})
    ops += [{"o": "comma", "items": [cps(str(k)) for k in range(c.pick(300, 2000))]}]
    ops += [{"o": "comma", "items": [cps("é")] * 66000}, {"o": "sep", "sep": cps("-" * 66000), "items": [cps("a"), cps("b"), cps("c")]},
            {"o": "diag", "range": rng_(), "sev": 2, "msg": cps("m" * 66000)}, {"o": "read", "xs": [cps("1" * 66000), cps("12" + " " * 66000)]}]
    ops += [{"o": "codes", "from": k, "to": min(65535, k + 511)} for k in range(0, 65536, 512)]
    # patterns: every small shape, and random ones
    leaf = [{"or": o, "con": cps(k), "args": [], "i": i} for o, k, i in ((0, "_", -1), (0, "A", 0), (0, "B(x", -1), (1, "", -1), (1, "", 0), (0, "", 0))]
    shapes = leaf + [{"or": o, "con": cps("C"), "args": x, "i": i} for o in (0, 1) for i in (-1, 0) for x in [[p] for p in leaf] + [[p, q] for p in leaf for q in leaf]]

    def pat(d):
        n = c.rng.choice([0, 1, 2, 3]) if d else 0
        return {"or": int(c.rng.random() < .4), "con": cps(c.rng.choice(["_", "A", "Some", "é", "1", "<NEVER>", "a | b", ""])), "args": [pat(d - 1) for _ in range(n)], "i": c.rng.choice([-1, 0])}
    pats = shapes + [pat(c.rng.randrange(5)) for _ in range(c.pick(300, 4000))]
    for x in pats:
        fixor(x)
    ops += [{"o": "pat", "xs": x, **alt()} for x in chunk(pats, 20)]
    for kind, w in (("pos", 2), ("range", 4), ("code", 1)):
        for _ in range(c.pick(25, 300)):
            pool = [n() for _ in range(c.rng.choice([2, 3, 5]))] if kind != "code" else [cps(str(c.rng.randrange(65536) >> c.rng.randrange(12))) for _ in range(6)]
            ops.append({"o": "ords", "kind": kind, "xs": [[c.rng.choice(pool) for _ in range(w)] for _ in range(6)]})
    texts = ["", " ", "0", "00", "-0", "+0", "+", "-", "-1", "+1", "65535", "65536", "65537", "99999", "100000", "131071", "065535", "0065536", "4294967297",
             "4294967296", "18446744073709551616", "1 ", " 1", "1.0", "1_000", "0x10", "1e3", "٣", "１", "12a", "a12", "½", "+-1", "--1", "++1", "1\n", "\0", "+65536", "-65535", "0" * 30, "0" * 30 + "7"]
    # one other character anywhere
    odd = [chr(k) for k in range(128)] + list("\u00a0\u2003\u200b\ufeff\u2212\u0661\uff11é")
    texts += [t for ch in odd for t in (ch, ch + "7", "7" + ch, "12" + ch + "34", "65535" + ch, ch + "65535", ch + ch + "1", "+" + ch + "1", ch + "+1")]
    texts += [str(k) for k in range(65500, 65600)] + ["".join(c.rng.choice("0123456789+- a") for _ in range(c.rng.randrange(1, 8))) for _ in range(c.pick(600, 10000))]
    ops += [{"o": "read", "xs": x} for x in chunk([cps(t) for t in texts], 30)]
    judge(c, [b, rb], ops, "recorded renderings", per_chunk=100)


def fixor(p):
    p["or"] = bool(p["or"])
    for q in p["args"]:
        if isinstance(q["or"], int):
            fixor(q)


# ---------------------------------------------------------------------------------- C27


def c27(c):
    b, rb = both()
    tests, r = gen_tests("MCCons", mkcfg(c.work, "MCCons", **c.pick({}, dict(MaxLen=6))), work=c.work)
    c.add_model(r, "inserting with a check fails exactly for a key listed twice (MCCons)")
    ops = [{"o": "map", "xs": t} for t in tests + [[]]] + [{"o": "set", "xs": [p[0] for p in t]} for t in tests + [[]]]
    judge(c, b, ops, "every short list", per_scenario=30, replay=True)
    ops = []
    for _ in range(c.pick(300, 5000)):
        n = c.rng.choice([5, 6, 7, 8, 20, 64])
        ks = c.rng.sample(range(-(1 << 30), 1 << 30), n)
        if c.rng.random() < .5:
            ks[c.rng.randrange(n)] = ks[c.rng.randrange(n)]
        ops += [{"o": "map", "xs": [[k, j] for j, k in enumerate(ks)]}, {"o": "set", "xs": ks}]
    edges = sorted({x for k in (0, 1, 7, 8, 15, 16, 31, 32, 33, 48, 63) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {(1 << 64) - 1, (1 << 64) - 2, (1 << 32) - 2})
    nums = edges + [c.rng.getrandbits(c.rng.randrange(1, 65)) for _ in range(c.pick(400, 5000))]
    ops += [{"o": o, "n": big(x)} for x in nums for o in ("idx", "size")]
    # lengths at which the text is stored differently, white space which is stored specially
    def text():
        k = c.rng.random()
        if k < .2:
            return "\n" * c.rng.choice([0, 1, 3, 31, 32, 33]) + " " * c.rng.choice([0, 1, 3, 127, 128, 129])
        al = c.rng.choice(["ab", "a\0", "aé😀", "xyz_0"])
        return "".join(c.rng.choice(al) for _ in range(c.rng.choice([0, 1, 2, 3, 21, 22, 23, 24, 25, 60])))
    ts = ["", "a", "\0", " ", "é", "a" * 22, "a" * 23, "a" * 24, "é" * 11, "é" * 12] + [text() for _ in range(c.pick(400, 5000))]
    ops += [{"o": "trynames", "xs": x} for x in chunk([cps(t) for t in ts], 20)]
    ops += [{"o": "name", "t": cps(t)} for t in ts[:200]]
    for _ in range(c.pick(120, 1500)):
        pool = [t for t in (text() for _ in range(8)) if t]
        pool += [t + "a" for t in pool[:3]] + [t[:-1] for t in pool[:3] if len(t) > 1]
        xs = [c.rng.choice(pool) for _ in range(c.rng.choice([1, 3, 6]))] if pool else ["a"]
        ops.append({"o": "names", "xs": [cps(x) for x in xs], "qs": [cps(q) for q in pool[:6] + xs + [""]]})
    num = lambda: cps(str(c.rng.choice([0, 1, 9, 10, 255, 256, 65535, 65536, (1 << 32) - 1, c.rng.getrandbits(32)])))
    ops += [{"o": "ords", "kind": "idx", "xs": [[num()] for _ in range(6)]} for _ in range(c.pick(40, 400))]
    ops += [{"o": "wrap", "range": [num() for _ in range(4)], "t": cps(text())} for _ in range(c.pick(60, 600))]
    ops.append({"o": "chars", "from": 0, "to": 0x10ffff})
    # many keys, long names
    for n in c.pick((300, 5000), (300, 5000, 66000)):
        ks = c.rng.sample(range(-(1 << 30), 1 << 30), n)
        for dup in (False, True):
            if dup:
                ks[n - 1] = ks[n // 2]
            ops += [{"o": "map", "xs": [[k, j] for j, k in enumerate(ks)]}, {"o": "set", "xs": ks}]
    long = ["a" * 66000 + x for x in ("", "a", "b", "é")]
    ops.append({"o": "names", "xs": [cps(x) for x in long + long[:1]], "qs": [cps(q) for q in long + ["a" * 65999]]})
    judge(c, [b, rb], ops, "recorded constructions", per_scenario=5, per_chunk=500)


def check(c):
    globals()[c.prop.lower()](c)
