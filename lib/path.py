"""C11: clean paths. C12: the path store. C13: file systems."""
import zlib

from common import *

NAMES = [b"a", b"b", b"ab", b".a", b"...", b"..a", b"a.", b" ", b"~", b"\xff\xfe", "ü".encode(), b"C:", b"a\\b", b"A", b"x" * 40, b"-", b"*", b"\n"]
SEGS = [b"", b".", b"..", b"..", b"a", b"b"]


def L(b):
    return list(b)


def rand_raw(rng, n=None, absolute=None, ups=True):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9]) if n is None else n
    segs = []
    for _ in range(n):
        k = rng.random()
        segs.append(rng.choice(SEGS) if k < .6 else rng.choice(NAMES))
    if not ups:
        segs = [x for x in segs if x != b".."]
    if absolute is None:
        absolute = rng.random() < .5
    b = b"/".join(segs)
    if absolute:
        b = b"/" + b
    elif b.startswith(b"/"):
        b = b"a" + b
    return b


def clean(b):
    out = []
    for x in b.split(b"/"):
        if x in (b"", b"."):
            continue
        if x == b"..":
            if out:
                out.pop()
        else:
            out.append(x)
    return b"/" + b"/".join(out)


def with_reset(sc, obs):
    """A history ends where a handle is missing (an earlier operation, judged itself, gave none)."""
    evs = [{"o": "reset"}]
    for op, ob in zip(sc["ops"], obs):
        if isinstance(ob, dict) and ob.get("nohandle"):
            break
        evs.append({**op, "obs": ob})
        if sc.get("stop") and isinstance(ob, dict) and ob.get("panic") and op["o"] in ("new", "push", "join", "parent", "show", "root"):
            break   # for C11 to judge
    return evs


def c11(c, b):
    cfg = mkcfg(c.work, "MCPath", **c.pick({}, dict(MaxRaw=5, MaxDepth=3)))
    tests, r = gen_tests("MCPath", cfg, work=c.work, rng=c.rng, limit=c.pick(None, 150000))
    c.add_model(r, "rebuilding a path component by component gives its normal form; cleaning is idempotent and a congruence (MCPath)")

    def join(segs):
        out = []
        for k, s in enumerate(segs):
            out += ([47] if k else []) + s
        return out
    scs = []
    for k, t in enumerate(tests):
        base = [47] + join(t["from"])
        ops = []
        if t["o"] == "new":
            ops = [{"o": "new", "to": 0, "raw": join(t["raw"]), "alt": k % 2 == 0}, {"o": "show", "h": 0, "alt": k % 3 == 0}]
        else:
            ops = [{"o": "new", "to": 0, "raw": base}]
            if t["o"] == "parent":
                ops += [{"o": "parent", "h": 0, "to": 1}]
            else:
                ops += [{"o": "join", "h": 0, "to": 1, "raw": join(t["raw"])}, {"o": "push", "h": 0, "raw": join(t["raw"])},
                        {"o": "show", "h": 0, "alt": True}]
        scs.append(ops)
    scs = [{"c": "path", "ops": sum(scs[i:i + 20], [])} for i in range(0, len(scs), 20)]
    c.sample(scs[len(scs) // 2]["ops"][:5])
    c.run_traces(b, scs, "TracePath", env={"FOCUS": "C11"}, what="behaviour of the specification", to_events=with_reset)
    c.traces -= len(scs)
    c.impl_tests += len(tests)
    scs = []
    for _ in range(c.pick(600, 10000)):
        ops = [{"o": "root", "to": 0}, {"o": "root", "to": 1}, {"o": "root", "to": 2}]
        for _ in range(c.rng.choice([5, 15, 40])):
            o = c.rng.choice(["new", "push", "push", "join", "join", "parent", "show"])
            op = {"o": o}
            if o != "new":
                op["h"] = c.rng.randrange(3)
            if o not in ("push", "show"):
                op["to"] = c.rng.randrange(3)
            if o in ("new", "push", "join"):
                op["raw"] = L(rand_raw(c.rng, absolute=(c.rng.random() < .8) if o == "new" else (c.rng.random() < .25)))
            if o in ("new", "show"):
                op["alt"] = c.rng.random() < .5
            ops.append(op)
        scs.append({"c": "path", "ops": ops})
    # how paths compare
    for _ in range(c.pick(150, 2500)):
        pool = c.rng.sample(NAMES, 3) + [b"a", b"a!", b"a0", b"ab"]
        n = c.rng.choice([4, 7])
        ops = [{"o": "new", "to": k, "raw": L(b"/" + b"/".join(c.rng.choice(pool) for _ in range(c.rng.randrange(4)))), "alt": k % 2 == 0} for k in range(n)]
        ops += [{"o": "order", "hs": [c.rng.randrange(n) for _ in range(n)]}, {"o": "order", "hs": list(range(n))}]
        scs.append({"c": "path", "ops": ops})
    for n in (260, 4100, 70000):
        # long names
        x = b"/" + b"a" * n
        scs.append({"c": "path", "ops": [{"o": "new", "to": 0, "raw": L(x + b"/.." + x + b"/./b")}, {"o": "push", "h": 0, "raw": L(b"../" + b"\xff" * n)}, {"o": "parent", "h": 0, "to": 1},
                                         {"o": "new", "to": 2, "raw": L(x)}, {"o": "new", "to": 3, "raw": L(x + b"a")}, {"o": "order", "hs": [0, 1, 2, 3]}]})
    for n in (2, 100, 255, 256, 4096):
        # one to four components, some of them long, all the way up and past the root
        for k in (1, 2, 3, 4):
            for _ in range(2):
                segs = [c.rng.choice([b"a" * n, b"\xc3\xa9" * (n // 2), b"." * n if n > 2 else b"x", b"b"]) for _ in range(k - 1)] + [b"c" * n]
                x = b"/" + b"/".join(segs)
                ops = [{"o": "new", "to": 0, "raw": L(x), "alt": k % 2 == 0}, {"o": "show", "h": 0, "alt": True}]
                ops += [{"o": "parent", "h": j, "to": j + 1} for j in range(k)]
                ops += [{"o": "parent", "h": k, "to": k}, {"o": "join", "h": 1, "to": k + 1, "raw": L(segs[-1])}, {"o": "push", "h": 0, "raw": L(b"../" * k)},
                        {"o": "push", "h": 0, "raw": L(x[1:])}, {"o": "order", "hs": list(range(k + 2))}]
                scs.append({"c": "path", "ops": ops})
    for n in c.pick([500], [500, 3000]):
        ops = [{"o": "new", "to": 0, "raw": L(rand_raw(c.rng, n, True))}, {"o": "push", "h": 0, "raw": L(rand_raw(c.rng, n, False))},
               {"o": "push", "h": 0, "raw": L(b"../" * n)}, {"o": "push", "h": 0, "raw": L(b"x/" * n)}, {"o": "parent", "h": 0, "to": 1}]
        scs.append({"c": "path", "ops": ops})
    c.sample(scs[0])
    c.run_traces(both(), scs, "TracePath", env={"FOCUS": "C11"}, to_events=with_reset)


def asks(rng, ids):
    return [{"o": "path", "s": s, "id": k} for s in ids for k in range(1, ids[s] + 1)]


def c12(c, b):
    pool = [b"/a", b"/a/b", b"/ab", b"/", b"/b/a", b"/\xff", b"/A"]
    tests, r = gen_tests("MCStore", mkcfg(c.work, "MCStore", **c.pick({}, dict(Stores="{0, 1, 2}", Paths="{0, 1}"))), work=c.work)
    c.add_model(r, "vector and map kept in step give one-to-one ids, kept when combining (MCStore)")
    if c.thorough:
        tests2, r = gen_tests("MCStore", mkcfg(c.work, "MCStore", Paths="{0, 1, 2, 3}"), work=c.work)
        c.add_model(r, "the same, 4 paths")
        tests += tests2
    scs = []
    for n, t in enumerate(tests):
        names = [pool[(k + n) % len(pool)] for k in range(5)]
        ops = [{"o": "new", "to": k, "raw": L(p)} for k, p in enumerate(names)]
        seen = {}
        for k, (o, s, x) in enumerate(t["hist"]):
            if o == "get":
                seen.setdefault(s, set()).add(x)
                ops.append({"o": "id", "s": s, "h": x, "alt": (k + n) % 2 == 0})
            else:
                ops.append({"o": "combine", "s": s, "t": x})
                seen[s] = seen.get(s, set()) | seen.pop(x, set())
        for s in seen:
            ops += [{"o": "id", "s": s, "h": x, "alt": x % 2 == 0} for x in sorted(seen[s])]
            ops += [{"o": "path", "s": s, "id": k + 1} for k in range(len(seen[s]))]
            ops += [{"o": "id", "s": s, "h": x, "alt": x % 2 == 0} for x in range(4)]
        scs.append({"c": "path", "stop": True, "ops": ops})
    c.sample(scs[len(scs) // 2])
    c.run_traces(b, scs, "TracePath", env={"FOCUS": "C12"}, what="behaviour of the specification", to_events=with_reset)
    c.traces -= len(scs)
    c.impl_tests += len(scs)
    scs = []

    def history(length, npaths, nstores, p_combine):
        ps = sorted({clean(rand_raw(c.rng, absolute=True)) for _ in range(npaths)})
        hot = c.rng.random() < .3
        ops = [{"o": "new", "to": k, "raw": L(p)} for k, p in enumerate(ps)]
        seen = {}
        for _ in range(length):
            k = c.rng.random()
            s = c.rng.randrange(nstores)
            if k < p_combine and nstores > 1:
                t = c.rng.choice([x for x in range(nstores) if x != s])
                ops.append({"o": "combine", "s": s, "t": t})
                seen[s] = seen.get(s, set()) | seen.pop(t, set())
            elif k < .75 or not seen.get(s):
                h = c.rng.randrange(min(len(ps), 3) if hot else len(ps))
                ops.append({"o": "id", "s": s, "h": h, "alt": c.rng.random() < .5})
                seen.setdefault(s, set()).add(h)
            else:
                ops.append({"o": "path", "s": s, "id": c.rng.randrange(len(seen[s])) + 1})
        for s in list(seen)[:4]:
            ops += [{"o": "path", "s": s, "id": k + 1} for k in range(min(60, len(seen[s])))]
        return {"c": "path", "stop": True, "ops": ops}
    for _ in range(c.pick(500, 8000)):
        scs.append(history(c.rng.choice([10, 30, 60]), c.rng.choice([2, 4, 8]), c.rng.choice([1, 2, 3, 4]), c.rng.choice([0, .1, .3])))
    for n in c.pick([300, 700], [300, 1500, 2500]):
        # many paths: beyond the sizes at which narrower ids would wrap
        ops = [{"o": "new", "to": k, "raw": L(b"/p/%d" % k)} for k in range(n)]
        ops += [{"o": "id", "s": k % 7 == 0, "h": k, "alt": k % 3 == 0} for k in range(n)]
        for op in ops:
            if "s" in op:
                op["s"] = int(op["s"])
        ops += [{"o": "path", "s": 0, "id": k} for k in (1, 2, 255, 256, 257, n // 2)]
        ops += [{"o": "combine", "s": 0, "t": 1}]
        ops += [{"o": "id", "s": 0, "h": k, "alt": k % 2 == 0} for k in range(0, n, 5)]
        scs.append({"c": "path", "stop": True, "ops": ops})
    # long paths that differ in one place, asked for one after another
    for n in (300, 5000):
        words = []
        for at in (0, n // 2, n - 1):
            for ch in b"xy":
                w = bytearray(b"a" * n)
                w[at] = ch
                words.append(bytes(w))
        shapes = [[b"/" + w for w in words], [b"/" + w + b"/z" for w in words], [b"/d/" + w + b"/e/z" for w in words],
                  [b"/" + b"/".join(w[k:k + 50] for k in range(0, n, 50)) for w in words]]
        for names in shapes + [sum(shapes, [])]:
            for alt in (0, 1, .5):
                ops = [{"o": "new", "to": k, "raw": L(p)} for k, p in enumerate(names)]
                order = list(range(len(names)))
                for _ in range(3):
                    ops += [{"o": "id", "s": 0, "h": k, "alt": c.rng.random() < alt} for k in order]
                    c.rng.shuffle(order)
                ops += [{"o": "path", "s": 0, "id": k + 1} for k in order]
                scs.append({"c": "path", "stop": True, "ops": ops})
    c.sample(scs[0])
    c.run_traces(both(), scs, "TracePath", env={"FOCUS": "C12"}, to_events=with_reset, per_chunk=3000)
    # more than 65536 paths: of one store, or only once combined with another
    big = []
    for n, cut in ((66000 + c.rng.randrange(3000), 500), (90000, 50000)):
        big.append([{"o": "bigstores", "n": n},
                    {"o": "bigids", "s": 0, "lo": 1, "hi": n - cut}, {"o": "bigids", "s": 0, "lo": 1, "hi": 300},
                    {"o": "bigids", "s": 1, "lo": n - cut - 100, "hi": n}, {"o": "bigids", "s": 1, "lo": n // 3, "hi": n // 3 + 50},
                    {"o": "bigpaths", "s": 1}, {"o": "bigcombine"}, {"o": "bigpaths", "s": 0}, {"o": "bigids", "s": 0, "lo": 1, "hi": n}])
    c.run_traces(both(), [{"c": "path", "ops": x} for x in big], "TracePath", env={"FOCUS": "C12"},
                 what="more than 65536 paths", to_events=big_events, per_chunk=1)


def big_events(sc, obs):
    evs = [{"o": "reset"}]
    for op, ob in zip(sc["ops"], obs):
        e = {**op, "obs": ob}
        if op["o"] == "bigcombine" and isinstance(ob, dict) and "r" in ob:
            e["at"] = [k for _, k in sorted((o, k + 1) for k, (o, _) in enumerate(ob["r"]))]
        evs.append(e)
    return evs


TEXTS = ["", "x", "hello\n", "\u00fc\u20ac\U0001f600", "a\r\nb\0c", "y" * 300, ("z\u00e9\n", 18000), ("\u20ac", 30000), ("abc d\n", 180000)]


def spell(rng, p, ups=False):
    """Another way to write a clean path."""
    segs = p.split(b"/")[1:] if p != b"/" else []
    out = b""
    for s in segs:
        out += b"/" + rng.choice([b"", b"", b"", b"./", b"/"]) + s
    return (out or b"/") + rng.choice([b"", b"", b"/", b"/.", b"//"])


def mem_queries(rng, ps, n=None):
    qs = []
    for p in ps:
        for raw in {p, spell(rng, p), p + b"/", p[1:], b"/./" + p, p + b"x", p + b"/../" + p.split(b"/")[-1]}:
            for o in ("mread", "mbytes", "mfile", "mdir"):
                if o == "mdir" and (not raw.startswith(b"/") or b".." in raw.split(b"/")):
                    continue
                qs.append({"o": o, "raw": L(raw)})
    qs = sorted(qs, key=lambda q: json.dumps(q))
    if n is not None and len(qs) > n:
        qs = rng.sample(qs, n)
    return qs + [{"o": "mcwd"}]


def content(b, n=1):
    """The contents that are b n times, for an operation; big ones are told by a checksum."""
    all_ = b * n
    try:
        text, ok = [ord(x) for x in all_.decode()] if len(all_) <= 4096 else None, bool(all_.decode()) or True
    except UnicodeDecodeError:
        text, ok = [], False
    if len(all_) <= 4096:
        return {"bytes": L(all_), "text": text, "utf8": ok}
    crc = zlib.crc32(all_)
    sig = [-1, len(all_), crc >> 16, crc & 0xffff]
    return {"rep": L(b), "times": n, "bytes": sig, "text": sig, "utf8": ok}


def put(h, t):
    return {"o": "mput", "h": h, **content(*((t.encode(),) if isinstance(t, str) else (t[0].encode(), t[1])))}


def c13(c, b):
    uni = [b"/", b"/a", b"/ab", b"/a/a", b"/a/ab", b"/ab/a", b"/a/a/.a"]
    tests, r = gen_tests("MCMem", work=c.work)
    c.add_model(r, "ordered rows searched by path give the meaning, for every set of stored paths (MCMem)")
    scs = []
    mk = [{"o": "new", "to": k, "raw": L(p)} for k, p in enumerate(uni)]
    for n, t in enumerate(tests):
        files = [b"/" + b"/".join(bytes(x) for x in f) for f in t["files"]]
        last = b"/" + b"/".join(bytes(x) for x in t["last"])
        ops = mk + [put(uni.index(f), TEXTS[k % len(TEXTS)]) for k, f in enumerate(files)]
        ops += [{"o": "mdel", "h": uni.index(last)} if t["del"] else put(uni.index(last), "last")]
        ops += mem_queries(c.rng, uni + [b"/.a", b"/b"], c.pick(40, None))
        scs.append({"c": "path", "stop": True, "ops": ops})
    c.sample(scs[len(scs) // 2]["ops"][:20])
    c.run_traces(b, scs, "TracePath", env={"FOCUS": "C13"}, what="behaviour of the specification", to_events=with_reset)
    c.traces -= len(scs)
    c.impl_tests += len(scs)
    scs = []
    for _ in range(c.pick(200, 3000)):
        base = [clean(rand_raw(c.rng, c.rng.choice([1, 2, 3]), True)) for _ in range(3)]
        ps = sorted(set(base + [clean(x + b"/" + rand_raw(c.rng, 2, False)) for x in base for _ in range(2)]
                        + [x + s for x in base if x != b"/" for s in (b"x", b".rs")]))
        ops = [{"o": "new", "to": k, "raw": L(p)} for k, p in enumerate(ps)]
        for _ in range(c.rng.choice([3, 8])):
            for _ in range(3):
                h = c.rng.randrange(len(ps))
                ops.append(put(h, c.rng.choice(TEXTS)) if c.rng.random() < .8 else {"o": "mdel", "h": h})
            ops += mem_queries(c.rng, ps, 12)
        scs.append({"c": "path", "stop": True, "ops": ops})
    n = c.pick(300, 1500)
    ops = [{"o": "new", "to": k, "raw": L(b"/d%d/f%d" % (k % 7, k))} for k in range(n)]
    ops += [put(k, "t%d" % k) for k in range(n)]
    ops += mem_queries(c.rng, [b"/d%d" % k for k in range(7)] + [b"/d3/f%d" % k for k in range(0, n, 20)], 150)
    scs.append({"c": "path", "stop": True, "ops": ops})
    c.sample(scs[0]["ops"][:20])
    c.run_traces(both(), scs, "TracePath", env={"FOCUS": "C13"}, what="memory file system", to_events=with_reset)
    scs = [real_scenario(c.rng) for _ in range(c.pick(150, 2500))]
    # directories with many entries
    for n in c.pick([300, 2500], [300, 2500, 6000]):
        ops = [{"o": "mkdir", "at": L(b"/many")}] + [mkfile(b"/many/f%d" % k, b"x") for k in range(n)]
        ops += [{"o": "rdir", "raw": L(b"/many")}, {"o": "rread", "raw": L(b"/many/f%d" % (n - 1))}, {"o": "rdir", "raw": L(b"//many/.")}]
        scs.append({"c": "path", "stop": True, "ops": ops})
    c.sample(scs[0]["ops"][:20])
    c.run_traces(both(), scs, "TracePath", env={"FOCUS": "C13"}, what="real file system", to_events=with_reset)


REALNAMES = [b"a", b"b", b".h", b"a.rs", b"\xff", "ü".encode(), b"x y", b"..."]
BODIES = [b"", b"x", b"a\r\nb\n", b"\xff\xfe", "\u00fc\U0001f600".encode(), b"\0" * 10, b"z" * 4000, (b"\xc3\xa9\n", 23000), (b"z", 9000), (b"0123456\n", 400000), (b"\xff\x00", 70000), b"\xef\xbb\xbfbom", b"ok\xc3"]


def leads_to(raw, links):
    """Where a path leads in the end (to aim questions)."""
    p = clean(b"/" + raw)
    for _ in range(9):
        segs = p.split(b"/")
        for k in range(2, len(segs) + 1):
            d = links.get(b"/".join(segs[:k]))
            if d is not None:
                p = b"/".join([d] + segs[k:])
                break
        else:
            return p
    return p


def real_scenario(rng):
    ops, dirs, files, links, specials = [], [b""], [], {}, []
    for _ in range(rng.choice([2, 5, 10, 15])):
        p = rng.choice(dirs) + b"/" + rng.choice(REALNAMES)
        if p in dirs or p in files or p in links or p in specials:
            if p in files and rng.random() < .3:
                ops.append({"o": "rm", "at": L(p)})
                files.remove(p)
            elif p not in files:
                continue
            else:
                body = rng.choice(BODIES)
                ops.append(mkfile(p, body))
            continue
        k = rng.random()
        if k < .35:
            ops.append({"o": "mkdir", "at": L(p)})
            dirs.append(p)
        elif k < .42:
            ops.append({"o": "mkspecial", "at": L(p), "kind": rng.choice(["fifo", "socket", "device"])})
            specials.append(p)
        elif k < .87:
            ops.append(mkfile(p, rng.choice(BODIES)))
            files.append(p)
        else:
            dest = rng.choice(files + dirs[1:] + specials + [b"/gone"])
            ops.append({"o": "mklink", "at": L(p), "dest": L(dest)})
            links[p] = dest
    raws = set()
    for p in dirs + files + list(links) + specials:
        raws |= {p or b"/", p + b"/" + rng.choice(REALNAMES), p + b"x"}
        raws.add(p.replace(b"/", rng.choice([b"//", b"/./"])) if p else b"/.")
    for raw in sorted(raws):
        # reading what is special may wait for ever
        never = leads_to(raw, links) in specials
        for o in ("rfile", "rdir") if never else ("rread", "rbytes", "rfile", "rdir"):
            ops.append({"o": o, "raw": L(raw)})
    ops += [{"o": "rcwd", "dir": L(d or b"/")} for d in dirs[:3]]
    return {"c": "path", "stop": True, "ops": ops}


def mkfile(p, body):
    return {"o": "mkfile", "at": L(p), **content(*((body,) if isinstance(body, bytes) else body))}


def check(c):
    b = build_driver()
    {"C11": c11, "C12": c12, "C13": c13}[c.prop](c, b)
