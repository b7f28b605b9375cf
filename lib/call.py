"""C28: timing calls. C29: writing Rust tokens to a file."""
from common import *
from small import cps, chunk

LEVELS = ["off", "error", "warn", "info", "debug", "trace"]


def c28(c):
    b, rb = both()
    c.assumptions += ["the clock the crate reads does not go back (std::time::Instant)"]
    tests, r = gen_tests("MCTime", mkcfg(c.work, "MCTime", **c.pick({}, dict(MaxClock=2))), work=c.work)
    c.add_model(r, "a clock read before and after the call keeps the promise for every nesting of calls (MCTime)")

    def conv(t):
        return {"how": t["how"], "m": cps(t["m"]), "us": 0, "panic": t["panic"], "kids": [conv(k) for k in t["kids"]]}
    scs = [{"c": "timed", "ops": [{"o": "timed", "level": t["level"], "call": conv(t["call"])} for t in ts]} for ts in chunk(tests, 20)]
    c.sample(scs[len(scs) // 2]["ops"][0])
    c.run_traces(b, scs, "TraceCall", what="behaviour of the specification")
    c.traces -= len(scs)
    c.impl_tests += len(tests)

    def call(depth, p):
        n = c.rng.choice([0, 0, 1, 2, 3]) if depth else 0
        return {"how": c.rng.choice(["time", "log"]), "m": cps(c.rng.choice(["", "m", "two words", "a: b", "{} {x} {{", "%s", "é😀\n", "1.5ms", "x" * 300, " : "]) if c.rng.random() < .998 else "x" * 66000),
                "us": c.rng.choice([0, 0, 0, 0, 1, 5, 40, 300]), "panic": c.rng.random() < p, "kids": [call(depth - 1, p) for _ in range(n)]}
    scs = []
    for _ in range(c.pick(400, 6000)):
        scs.append({"c": "timed", "ops": [{"o": "timed", "level": c.rng.choice(LEVELS + ["info", "trace"]),
                                           "call": call(c.rng.choice([0, 1, 2, 3, 3, 5]), c.rng.choice([0, 0, .1, .4]))} for _ in range(8)]})
    # calls in calls in calls
    for n in (5, 20, 60):
        k = {"how": "log", "m": cps("deepest"), "us": 0, "panic": False, "kids": []}
        for j in range(n):
            k = {"how": c.rng.choice(["time", "log", "log"]), "m": cps(f"m{j}"), "us": 0, "panic": False, "kids": [k]}
        scs.append({"c": "timed", "ops": [{"o": "timed", "level": "info", "call": k}]})
    scs.append({"c": "timed", "ops": [{"o": "timed", "level": "info", "call": {"how": "log", "m": cps("many"), "us": 0, "panic": False, "kids":
                [{"how": "log", "m": cps(f"m{j % 7}"), "us": 0, "panic": False, "kids": []} for j in range(3000)]}}]})
    # times that are written with each unit
    for us in c.pick([999, 1000, 1001, 30000, 120000], [999, 1000, 1001, 30000, 120000, 500000, 900000]):
        k = {"how": "log", "m": cps("slow"), "us": us, "panic": False, "kids": []}
        scs.append({"c": "timed", "ops": [{"o": "timed", "level": "info", "call": {**k, "how": h}} for h in ("time", "log")]})
    # longer than a second
    for us, h in c.pick([(1200000, "log"), (2300000, "time")], [(1200000, "log"), (2300000, "time"), (12000000, "log"), (61500000, "time")]):
        scs.append({"c": "timed", "ops": [{"o": "timed", "level": "info", "call": {"how": h, "m": cps("slow"), "us": us, "panic": False, "kids": []}}]})
    c.sample(scs[0]["ops"][0])
    c.run_traces([b, rb], scs, "TraceCall")


# ---------------------------------------------------------------------------------- C29

ITEMS = ["use a::b;", "use a::{b, c, d};", "use ::std::fmt::*;", "struct S0;", "struct S1(u8, pub u16);", "pub struct S2 { a: u8, pub b: Vec<u8> }", "enum E0 { A, B(u8), C { x: u8 } }",
         "#[derive(Debug, Clone)] pub enum E1 { A, B = 3 }", "const C0: u8 = 1;", "pub const C1: [u8; 3] = [1, 2, 3];", "static T0: &str = \"some text\";", "type A0 = u8;",
         "fn f0() {}", "pub fn f1(x: u8, y: &str) -> u8 { x }", "pub(crate) fn f2() { f0(); let x = f1(1, \"a\"); f0() }", "fn f3<T: Clone>(t: T) -> Option<T> { Some(t) }",
         "impl S0 { pub fn new() -> Self { Self } fn get(&self) -> u8 { 0 } }", "impl Clone for S0 { fn clone(&self) -> Self { S0 } }",
         "mod m0 { use a::b; fn f() { g() } mod n { struct X; } }", "pub mod m1 {}", "trait T1 { fn f(&self); const X: u8; }", "extern crate core;", "#[doc = \" Docs of this.\"] pub struct S3;",
         "#[doc = \" Two\"] #[doc = \" lines.\"] #[must_use] pub fn f4() -> u8 { 7 }", "#[allow(dead_code)] const C2: char = 'x';", "const C3: f64 = 1.5e3; const C4: i64 = -7;",
         "fn f5(x: u8) -> u8 { if x > 3 { f0(); 1 } else { 2 } }", "fn f6() { while true { f0(); } loop { break; } for i in 0..3 { f0(); } }",
         "const C5: &[u8] = b\"bytes\"; const C6: &str = r\"raw\";", "const LONG: [u32; 12] = [1000001, 1000002, 1000003, 1000004, 1000005, 1000006, 1000007, 1000008, 1000009, 1000010, 1000011, 1000012];",
         "pub fn long_name_of_a_function(first_argument: SomeType, second_argument: SomeType, third_argument: SomeType) -> SomeType { first_argument }",
         "const É: &str = \"é😀\";", "union U { a: u8, b: i8 }", "unsafe extern \"C\" { fn ext(x: u8); }"]
# literals of several lines, with blanks at their ends, and with what is something else outside of them
ITEMS += ['const L0: &str = r"a\n\n\nb  \n\tc\n";', 'const L1: &str = "x\n\n\n\n  y";', 'const L2: &str = r##"say "hi" {[( "# \n// no comment ;  \n"##;', 'static L3: &[u8] = b"a \\n\\\" ";',
          'fn l4() { f("\\"", \'"\', \'{\', b\'\\\'\', "/* ; }", "a,)", "\\u{200b}\u200b\ufeff"); }', 'const L5: &str = "one \\\n      two";', 'const L6: [&str; 2] = ["\r\n", "\t"];',
          'const L7: (u128, f32, &str) = (0xFF_u128, 1e-7_f32, "  ");', 'fn l8() { let s = "\n    let x = 1;\n\n"; g(s) }']
INNER = "#![allow(unused)]"
BAD = ["fn (", "1 + 2", "struct", "let x = 1;", "pub use", "fn f() -> {}", "struct S { a }", "use a::b", "enum E { A B }", ";;x", "impl {}", "#[doc]", "fn f() { ) }", "x!(", "'a", "mod m", "const X = ;"]
BAD = [x for x in BAD if x.count("(") == x.count(")") and x.count("{") == x.count("}") and ") }" not in x]
STYLES = ["plain", "slash", "dot", "relative", "link", "bytes"]
NAMES = ["a.rs", "kind.rs", "ast.rs", "é .rs", "noext", ".hidden", "a.rs.bak"]


def c29(c):
    b, rb = both()
    c.assumptions += ["nothing else writes into the directory meanwhile"]
    tests, r = gen_tests("MCWrite", mkcfg(c.work, "MCWrite", **c.pick({}, dict(MaxWrites=3))), work=c.work, rng=c.rng, limit=c.pick(None, 3000))
    c.add_model(r, "finding the place, parsing and formatting before writing leaves no half-done files (MCWrite)")

    def write(n, src, valid=True, out="dir"):
        return {"o": "write", "base": cps(n), "src": cps(src), "valid": valid, "out": out}

    def again(n, m):
        return {"o": "again", "base": cps(n), "from": cps(m), "out": "dir"}
    srcs = {0: " ".join(ITEMS[:12]), 1: ITEMS[13], 9: BAD[0]}
    scs = [{"c": "written", "ops": [write(NAMES[n], BAD[k % len(BAD)] if s == 9 else srcs[s], s != 9, o) for n, s, o in t]} for k, t in enumerate(tests)]
    c.sample(scs[len(scs) // 2])
    c.run_traces(b, scs, "TraceCall", what="behaviour of the specification")
    c.traces -= len(scs)
    c.impl_tests += len(scs)
    scs = [{"c": "written", "ops": [write("a.rs", x), again("b.rs", "a.rs")]} for x in ITEMS + [INNER, ""]]
    scs += [{"c": "written", "ops": [write("a.rs", ITEMS[0]), write("a.rs", x, False), write("b.rs", x, False)]} for x in BAD]
    # files that have names like the written one's; the ways of naming the directory
    for n in NAMES:
        stem = n.rsplit(".", 1)[0] if "." in n[1:] else n
        near = sorted({x for m in (n, stem) for x in (m, m + ".tmp", m + "~", m + ".bak", m + ".old", m + ".new", m + ".orig", m + ".rs", m + ".rs.tmp", m + ".lock", m + ".swp",
                                                      m + ".part", "." + m, "." + m + ".tmp", m + "-tmp", "tmp-" + m, m + ".txt", m + "_", m.upper(), m + ".temp", "_" + m,
                                                      m + ".rs.bk", m + ".fmt", m + ".md5", m + ".hash", m + ".stamp", m + "1", "#" + m + "#")} - {n} | {"tmp", ".tmp", "temp", "out"})
        near = [m for m in near if ".." not in m]
        put = [{"o": "put", "base": cps(m), "text": cps(m)} for m in near]
        scs.append({"c": "written", "ops": put + [write(n, ITEMS[0]), write(n, BAD[1], False), write(n, ITEMS[3]), again(n, n)]})
        scs.append({"c": "written", "ops": [{**write(n, ITEMS[k]), "style": st} for k, st in enumerate(STYLES)]})
    for _ in range(c.pick(150, 2500)):
        style = c.rng.choice(STYLES)
        ops, names = [], set()
        for _ in range(c.rng.choice([2, 4, 7])):
            n = c.rng.choice(NAMES[:c.rng.choice([2, 7])])
            k = c.rng.random()
            if k < .12:
                ops.append({"o": "put", "base": cps(n), "text": cps(c.rng.choice(["", "fn old() {}\n", "not rust (\n" * c.rng.choice([1, 400])]))})
                names.discard(n)
            elif k < .3 and names:
                m = c.rng.choice(sorted(names))
                ops.append(again(n, m))
                names.add(n)
            elif k < .4:
                ops.append(write(n, c.rng.choice(BAD), False))
            elif k < .47:
                ops.append(write(c.rng.choice([n, "nodir/" + n]), c.rng.choice(ITEMS), True, c.rng.choice(["none", "gone"])))
            elif k < .5:
                ops.append(write("nodir/" + n, c.rng.choice(ITEMS)))
            else:
                xs = [c.rng.choice(ITEMS) for _ in range(c.rng.choice([0, 1, 2, 5, 12]))]
                if c.rng.random() < .2:
                    xs = [INNER] + xs
                if c.rng.random() < .25:
                    # all of these are as long
                    xs = c.rng.choice([["fn s%d() {}"], ["struct S%d;", "const C: u8 = 1;"], ["const N: u8 = %d;"]])
                    xs = [x.replace("%d", str(c.rng.randrange(10))) for x in xs]
                if c.rng.random() < .1:
                    xs = ["mod outer { %s }" % " ".join(xs).replace(INNER, "")]
                ops.append(write(n, c.rng.choice([" ", "\n", "\n\n  "]).join(xs)))
                names.add(n)
        scs.append({"c": "written", "ops": [{**x, "style": style} if x["o"] == "write" else x for x in ops]})
    for n in c.pick([300, 6000], [300, 3000, 30000]):
        scs.append({"c": "written", "ops": [write("big.rs", "\n".join(c.rng.choice(ITEMS) for _ in range(n))), write("big.rs", "struct S;"), write("a.rs", "struct S;")]})
    c.sample(scs[0])
    c.run_traces([b, rb], scs, "TraceCall", per_chunk=300)


def check(c):
    globals()[c.prop.lower()](c)
