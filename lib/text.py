"""C14, C15: text-pos. C16: apply-changes."""
from common import *

WIDTHS = [[97], [233], [12513], [128512], [97, 10], [97, 128512, 10], [97, 233, 12513, 128512, 10, 13, 9, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff], [0xfeff, 97, 10], [0, 11, 12, 13, 0x85, 0x2028, 0x2029, 0xfeff, 0xfffe, 0x301, 97, 10, 128512]]


def u8(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


def u16(c):
    return 1 if c < 0x10000 else 2


def boundaries(t):
    """(offset, line, column) of every boundary, to aim questions (the specification judges them)."""
    off = line = col = 0
    out = [(0, 0, 0)]
    for c in t:
        off += u8(c)
        line, col = (line + 1, 0) if c == 10 else (line, col + u16(c))
        out.append((off, line, col))
    return out


def rand_text(rng, n):
    al = rng.choice(WIDTHS)
    nl = rng.choice([0, .02, .1, .3])
    return [10 if rng.random() < nl else rng.choice(al) for _ in range(n)]


def all_questions(t, prop):
    bs = boundaries(t)
    size, lines = bs[-1][0], bs[-1][1]
    if prop == "C15":
        return [{"o": "lines", "xs": [[x, y] for y in range(size + 1) for x in range(y + 1)]}]
    cols = max(b[2] for b in bs) + 3
    poss = [(ln, c) for ln in [*range(lines + 2), -1] for c in [*range(cols + 1), -1, -2, -7]]
    offs = [*range(size + 3), -1, -2]
    ends = [(a, b) for a in offs for b in offs if 0 <= a <= b or (a >= 0 > b)]
    rngs = [[*p, *q] for p in poss for q in poss if all(x >= 0 for x in p + q) and p <= q]
    if len(rngs) > 60:
        rngs = [r for k, r in enumerate(rngs) if k % (len(rngs) // 60) == 0]
    return [{"o": "end"}, {"o": "pos", "xs": offs}, {"o": "off", "xs": [list(p) for p in poss]},
            {"o": "range", "xs": [list(x) for x in ends]}, {"o": "offs", "xs": rngs}]


def some_questions(rng, t, prop, n):
    bs = boundaries(t)
    size = bs[-1][0]

    def off():
        x = rng.choice(bs)[0] + rng.choice([0, 0, 0, 1, -1, 2])
        return min(max(x, 0), size)
    if prop == "C15":
        xs = [sorted((off(), off())) for _ in range(n)] + [[0, size]]
        return [{"o": "lines", "xs": xs}]

    def pos():
        _, ln, c = rng.choice(bs)
        k = rng.random()
        if k < .6:
            return (ln, c)
        if k < .9:
            return (ln, max(0, c + rng.choice([-2, -1, 1, 2, 3, 100])))
        return (max(0, ln + rng.choice([-1, 1, 5])), c)
    offs = [off() for _ in range(n)] + [size, size + 1, -1]
    return [{"o": "end"}, {"o": "pos", "xs": offs}, {"o": "off", "xs": [list(pos()) for _ in range(n)]},
            {"o": "range", "xs": [sorted((off(), off())) for _ in range(n)]},
            {"o": "offs", "xs": [[*p, *q] for p, q in (sorted((pos(), pos())) for _ in range(n))]}]


def apply_py(t, ch):
    """Only to aim the next change (the specification judges the outcome)."""
    if not ch["r"]:
        return ch["t"]
    at = {(ln, c): k for k, (_, ln, c) in enumerate(boundaries(t))}
    a, b, c, d = ch["r"][0]
    if (a, b) in at and (c, d) in at:
        return t[:at[a, b]] + ch["t"] + t[at[c, d]:]
    return t


def rand_changes(rng, t, n, style):
    out = []
    last = None
    for _ in range(n):
        bs = boundaries(t)
        if style == "desc" and last:
            bs2 = [b for b in bs if b[1] <= last] or bs
        elif style == "asc" and last:
            bs2 = [b for b in bs if b[1] >= last] or bs
        else:
            bs2 = bs
        p, q = sorted((rng.choice(bs2)[1:], rng.choice(bs2 if rng.random() < .7 else bs)[1:]))
        if rng.random() < .5:
            # close together
            k = [b[1:] for b in bs].index(p)
            q = bs[min(len(bs) - 1, k + rng.randrange(4))][1:]
        if rng.random() < .12:
            q = rng.choice([(q[0], q[1] + rng.choice([1, 2, 50])), (q[0] + 1, q[1]), (q[0] + 40, 0)])
        if rng.random() < .08:
            p = (p[0], max(0, p[1] - 1))
        if p > q:
            p, q = q, p
        ins = rand_text(rng, rng.choice([0, 0, 1, 1, 2, 5, 30]))
        ch = {"r": [] if rng.random() < .06 else [[*p, *q]], "t": ins}
        out.append(ch)
        t = apply_py(t, ch)
        last = p[0]
    return out


def typing(rng, t, n):
    """Small insertions and deletions, each where the one before ended, now and then elsewhere."""
    out, at = [], rng.randrange(len(t) + 1)
    for _ in range(n):
        x = rng.random()
        if x < .02:
            at = rng.randrange(len(t) + 1)
        bs = [b[1:] for b in boundaries(t)]
        if x > .85 and at:
            ch = {"r": [[*bs[at - 1], *bs[at]]], "t": []}
        else:
            ch = {"r": [[*bs[at], *bs[at]]], "t": [rng.choice([97, 98, 233, 128512, 97, 233, 10 if rng.random() < .2 else 12513])]}
        out.append(ch)
        t = apply_py(t, ch)
        at += len(ch["t"]) or -1
    return out


def huge_text(rng, kind):
    """More lines, or columns, than 16 bits can count, with what matters behind them."""
    n = 66000 + rng.randrange(1500)
    end = [97, 233, 128512, 10, 12513, 128512, 98, 10, 233]
    if kind == "lines":
        t = []
        for k in range(n):
            t += [10] if rng.random() < .7 else [rng.choice([97, 233, 128512]), 10]
        return t + end
    # a few long lines
    return [97] * 40000 + [10] + [97] * 66 + [233] * rng.choice([10, 33000]) + [97] * n + end + [97] * 300 + end


def check(c):
    prop = c.prop
    b = build_driver()
    scs = []
    if prop == "C16":
        c.assumptions += ["the start of a change's range is not after its end, as RangeUtf16 documents"]
        cfg = mkcfg(c.work, "MCEdit", **c.pick({}, dict(MaxEdits=3, MaxTextLen=4)))
        tests, r = gen_tests("MCEdit", cfg, work=c.work, rng=c.rng, limit=c.pick(15000, 150000))
        c.add_model(r, "keeping the index over several edits equals applying each to the current text (MCEdit)")
        gen = [{"c": "text", "text": t["text"], "ops": [{"o": "apply", "changes": t["changes"]}]} for t in tests]
        for _ in range(c.pick(1500, 20000)):
            t = rand_text(c.rng, c.rng.choice([0, 3, 10, 40, 150]))
            ch = rand_changes(c.rng, t, c.rng.choice([1, 2, 3, 5, 9, 20]), c.rng.choice(["any", "desc", "asc", "desc"]))
            scs.append({"c": "text", "text": t, "ops": [{"o": "apply", "changes": ch}]})
        for n in c.pick([2000], [2000, 9000]):
            t = rand_text(c.rng, n)
            scs.append({"c": "text", "text": t, "ops": [{"o": "apply", "changes": rand_changes(c.rng, t, 30, s)}
                                                        for s in ("desc",)]})
        # many changes at once: here and there, and as when one types
        for n in c.pick([300, 800], [300, 300, 1000, 3000]):
            t = rand_text(c.rng, 40)
            for style in ("any", "desc", "typing"):
                chs = typing(c.rng, t, n) if style == "typing" else rand_changes(c.rng, t, n, style)
                scs.append({"c": "text", "text": t, "ops": [{"o": "apply", "changes": chs}]})
        for k in ("lines", "columns"):
            t = huge_text(c.rng, k)
            bs = boundaries(t)
            chs = []
            for x, y in ((.999, 1), (.4, .41), (.9995, .9996)):
                # the later changes are near places that still are where they were, or nearly
                p, q = (bs[int(z * (len(bs) - 1))][1:] for z in (x, y))
                chs.append({"r": [[*p, *q]], "t": rand_text(c.rng, 4)})
            scs.append({"c": "text", "text": t, "ops": [{"o": "apply", "changes": chs}]})
    else:
        cfg = mkcfg(c.work, "MCText" if prop == "C14" else "MCTextLines", **c.pick({}, dict(MaxLen=6)))
        tests, r = gen_tests("MCText", cfg, work=c.work)
        c.add_model(r, "the line index agrees with the meaning of positions, for every text, offset, position and range (MCText)")
        gen = [{"c": "text", "text": t["text"], "ops": all_questions(t["text"], prop)} for t in tests + [{"text": []}]]
        # CR and the edges of the widths
        for _ in range(c.pick(400, 4000)):
            t = [c.rng.choice(c.rng.choice(WIDTHS[-3:])) for _ in range(c.rng.randrange(1, 7))]
            gen.append({"c": "text", "text": t, "ops": all_questions(t, prop)})
        for _ in range(c.pick(300, 3000)):
            t = rand_text(c.rng, c.rng.choice([5, 15, 16, 17, 31, 32, 33, 80, 200]))
            scs.append({"c": "text", "text": t, "ops": some_questions(c.rng, t, prop, 40)})
        for n in c.pick([3000, 70000], [3000, 70000, 70000, 100000, 300000]):
            t = rand_text(c.rng, n)
            scs.append({"c": "text", "text": t, "ops": some_questions(c.rng, t, prop, 60 if n < 70000 else 8)})
        for k in ("lines", "columns"):
            t = huge_text(c.rng, k)
            bs = boundaries(t)
            tail = [b[0] for b in bs[-12:]]
            edge = [b for b in bs if any(abs(x - 65536) < 3 for x in b)]
            top = max(bs, key=lambda b: b[2])
            edge = c.rng.sample(edge, min(len(edge), 12)) + [top, bs[-1]]
            scs.append({"c": "text", "text": t, "ops": some_questions(c.rng, t, prop, 8) + (
                [{"o": "lines", "xs": [[tail[0], tail[-1]], [tail[1], tail[1]], [bs[-400][0], tail[2]]]}] if prop == "C15" else
                [{"o": "pos", "xs": tail}, {"o": "off", "xs": [list(b[1:]) for b in bs[-12:]]},
                 {"o": "pos", "xs": [b[0] for b in edge]}, {"o": "off", "xs": [list(b[1:]) for b in edge]},
                 {"o": "range", "xs": [sorted((x[0], y[0])) for x in edge[:6] for y in edge[-4:]]},
                 {"o": "offs", "xs": [[*p, *q] for x in edge[:6] for y in edge[-4:] for p, q in [sorted((x[1:], y[1:]))]]},
                 {"o": "range", "xs": [[tail[0], x] for x in tail]}])})
    c.sample(gen[len(gen) // 2])
    c.run_traces(b, gen, "TraceText", what="every question about a text" if prop != "C16" else "behaviour of the specification", per_chunk=1500)
    c.impl_tests += len(gen)
    c.traces -= len(gen)
    c.run_traces(both(), scs, "TraceText", what="recorded answers", per_chunk=400)
    c.sample(scs[0])
