"""C01..C05: event-parse."""
from common import *

PANIC_OWNER = {"C01": {"finish"}, "C02": {"enter", "exit", "abandon", "precede", "leaves", "finish"},
               "C03": {"save", "ok_since"}, "C04": {"peek", "peek_n", "at", "at_n", "bump", "bumps", "eat"},
               "C05": {"error", "errors"}}
LOOKS = ("peek", "peek_n", "at", "at_n")


def tok(rng, kind):
    if kind >= 50:
        t = rng.choice([" ", "\n", "", "  ", "(* c *)", "// é\n", "\t \t"])
    else:
        t = rng.choice(["a", "bc", "let", "", "é", "\U0001f600x", "==", "z" * rng.choice([1, 3, 40])])
    return [kind, t, len(t.encode())]


class Sim:
    """Makes histories that keep to the rules of use (TraceParse judges that, too)."""

    def __init__(self, rng, toks, maxdepth, use):
        self.rng, self.toks, self.use, self.maxdepth = rng, toks, use, maxdepth
        self.solid = [t for t in toks if t[0] < 50]
        self.ops = []
        self.frames = [[0, 0, []]]  # handle, wrapped, completed constructs directly in it
        self.pos = self.nid = self.nsv = self.nerr = 0
        self.nid = self.nsv = 1
        self.saves = {}

    def op(self, **kw):
        self.ops.append(kw)

    def snap(self):
        return [self.pos, [[h, x, list(c)] for h, x, c in self.frames], self.nerr, self.nid]

    def enter(self):
        self.op(o="enter", h=self.nid)
        self.frames.append([self.nid, 0, []])
        self.nid += 1

    def _close(self):
        d = len(self.frames)
        self.saves = {k: v for k, v in self.saves.items() if len(v[1]) < d}
        return self.frames.pop()

    def exit(self, kind):
        h = self._close()[0]
        self.op(o="exit", h=h, k=kind)
        self.frames[-1][2].append(h)

    def abandon(self):
        h, _, c = self._close()
        self.op(o="abandon", h=h)
        self.frames[-1][2] += c

    def wrappable(self):
        return [x for x in self.frames[-1][2] if x != self.frames[-1][1]]

    def precede(self, x):
        self.op(o="precede", x=x, h=self.nid)
        c = self.frames[-1][2]
        i = c.index(x)
        self.frames[-1][2] = c[:i]
        self.frames.append([self.nid, x, c[i:]])
        self.saves = {k: v for k, v in self.saves.items() if v[3] <= x}
        self.nid += 1

    def bump(self):
        self.op(o="bump")
        self.pos += 1

    def error(self):
        self.op(o="error", e=len(self.ops) + 1)
        self.nerr += 1

    def eat(self, k):
        self.op(o="eat", k=k)
        if self.pos < len(self.solid) and self.solid[self.pos][0] == k:
            self.pos += 1
        else:
            self.nerr += 1

    def bumps(self, n):
        n = min(n, len(self.solid) - self.pos)
        self.op(o="bumps", n=n)
        self.pos += n

    def errors(self, n):
        self.op(o="errors", n=n, e=20000 + 100000 * self.nerr)
        self.nerr += n

    def leaves(self, n, full):
        if full:
            n = min(n, len(self.solid) - self.pos)
            self.pos += n
        self.op(o="leaves", h=self.nid, n=n, k=100 + self.rng.randrange(6), full=full)
        self.frames[-1][2] += range(self.nid, self.nid + n)
        self.nid += n

    def save(self):
        self.op(o="save", h=self.nsv)
        self.saves[self.nsv] = self.snap()
        self.nsv += 1

    def ok_since(self, h):
        pos, frames, nerr, nid = self.saves[h]
        if nerr != self.nerr:
            if len(frames) != len(self.frames):
                return
            self.pos, self.nerr, self.nid = pos, nerr, nid
            self.frames = [[a, b, list(c)] for a, b, c in frames]
            self.saves = {k: v for k, v in self.saves.items() if k < h}
        else:
            del self.saves[h]
        self.op(o="ok_since", h=h)

    def kind(self):
        # nothing is ever ahead that is trivia
        return self.rng.choice([1, 2, 3, 1, 2, 3, 50, 51, 52])

    def look(self):
        r = self.rng
        k = self.kind()
        n = r.choice([0, 1, 1, 2, 3, 7, 60])
        self.op(**r.choice([{"o": "peek"}, {"o": "peek_n", "n": n}, {"o": "at", "k": k}, {"o": "at_n", "n": n, "k": k}]))

    def step(self):
        r = self.rng
        u = self.use
        left = len(self.solid) - self.pos
        inner = len(self.frames) > 2
        w = {"enter": 3 * u["tree"] if len(self.frames) < self.maxdepth else 0,
             "exit": 2.5 * u["tree"] if inner else 0, "abandon": u["abandon"] if inner else 0,
             "precede": u["precede"] if self.wrappable() and len(self.frames) < self.maxdepth else 0,
             "bump": 5 * u["eat"] if left else 0, "eat": 2 * u["eat"], "error": u["error"],
             "save": u["save"], "ok": u["save"] if self.saves else 0, "look": u["look"]}
        o = r.choices(list(w), list(w.values()))[0]
        if o == "enter":
            self.enter()
        elif o == "exit":
            self.exit(r.randrange(100, 106))
        elif o == "abandon":
            self.abandon()
        elif o == "precede":
            c = self.wrappable()
            self.precede(c[-1] if r.random() < .7 else r.choice(c))
        elif o == "bump":
            self.bump()
        elif o == "eat":
            k = self.kind()
            if left and r.random() < u["hit"]:
                k = self.solid[self.pos][0]
            self.eat(k)
        elif o == "error":
            self.error()
        elif o == "save":
            self.save()
        elif o == "ok":
            self.ok_since(r.choice(list(self.saves)))
        else:
            self.look()

    def finish(self):
        r = self.rng
        while self.use.get("drain") and self.pos < len(self.solid):
            self.bump()
        while len(self.frames) > 2:
            self.exit(r.randrange(100, 106))
        self.exit(99 + r.randrange(1, 8))
        # the outermost construct may be wrapped in turn, or that be tried and given up
        while r.random() < .25:
            self.precede(self.frames[-1][2][-1])
            if r.random() < .3:
                self.error()
            if r.random() < .5:
                self.exit(r.randrange(100, 106))
            else:
                self.abandon()
        if r.random() < .1:
            self.error()
        self.op(o="finish")


def scenario(rng, size, steps):
    n = rng.randrange(size + 1)
    triv = rng.choice([0, .2, .5, .8, 1])
    toks = [tok(rng, rng.choice([50, 51, 52]) if rng.random() < triv else rng.choice([1, 2, 3])) for _ in range(n)]
    use = {"tree": rng.choice([.3, 1, 2]), "abandon": rng.choice([0, .5, 2]), "precede": rng.choice([0, 1, 4]),
           "eat": rng.choice([.2, 1, 1, 2]), "error": rng.choice([0, .2, 1]), "save": rng.choice([0, .3, 2]),
           "look": rng.choice([0, 1, 3]), "hit": rng.choice([.5, 1]), "drain": rng.random() < .5}
    s = Sim(rng, toks, rng.choice([3, 5, 12]), use)
    if rng.random() < .1:
        s.error()
    if rng.random() < .2:
        s.look()
    s.enter()
    for _ in range(rng.randrange(steps + 1)):
        s.step()
    if rng.random() < .05 and s.pos == len(s.solid):
        s.op(o="bump")  # panics, and that is the end
    else:
        s.finish()
    return {"c": "parse", "toks": toks, "ops": s.ops}


DEEP = ["nest", "chain", "wide", "tries", "skips", "bowl", "far"]


def deep(rng, depth, kind):
    """Deep nesting, long precede chains, wide trees: thresholds in depth or size."""
    toks = []
    for i in range(depth):
        toks += [tok(rng, 50), tok(rng, 1 + i % 3)] if i % 3 or kind == "bowl" else [tok(rng, 1)]
    s = Sim(rng, toks, 10 ** 9, {})
    s.enter()
    for i in range(depth):
        if kind == "bowl":
            # tokens on the way down and on the way up
            s.enter()
            if rng.random() < .6:
                s.bump()
            continue
        if kind == "far":
            left = len(s.solid) - s.pos
            n = rng.choice([0, 1, left - 1, left, left + 1, rng.randrange(left + 2), 63, 64, 65, 127, 128, 255, 256, 257, 999])
            k = rng.choice([s.kind(), s.solid[s.pos + n][0] if s.pos + n < len(s.solid) else 1])
            s.op(**rng.choice([{"o": "peek_n", "n": n}, {"o": "at_n", "n": n, "k": k}]))
            if rng.random() < .5:
                s.bump()
            continue
        if kind == "nest":
            s.enter()
            s.bump()
        elif kind == "chain":
            if i == 0:
                s.enter()
            else:
                s.precede(s.frames[-1][2][-1])
            s.bump()
            s.exit(100 + i % 6)
        elif kind == "wide":
            s.enter()
            s.bump()
            s.exit(100 + i % 6)
        elif kind == "tries":
            s.save()
            s.enter()
            s.bump()
            if i % 2:
                s.error()
            s.exit(101)
            s.ok_since(s.nsv - 1)
        else:
            s.look()
            s.enter()
            s.eat(3)
            if i % 2:
                s.exit(101)
            else:
                s.abandon()
    while len(s.frames) > 2:
        s.exit(rng.randrange(100, 106))
        if kind == "bowl" and s.pos < len(s.solid) and rng.random() < .5:
            s.bump()
    while s.pos < len(s.solid) and rng.random() < .98:
        s.bump()
    s.exit(100)
    s.op(o="finish")
    return {"c": "parse", "toks": toks, "ops": s.ops}


def huge(rng, kind):
    """More tokens, errors, constructs, calls than 16 bits can count, in a few steps."""
    n = 66000 + rng.randrange(3000)
    triv = {"tokens": 0, "trivia": 1}.get(kind, .02)
    toks = []
    for i in range(n if kind in ("tokens", "tries", "wrap", "leaves") else 400):
        toks.append(tok(rng, 1 + i % 3))
        if rng.random() < triv:
            toks.append(tok(rng, 50))
    if kind == "trivia":
        toks[300:300] = [tok(rng, 50) for _ in range(n)]
    s = Sim(rng, toks, 10 ** 9, {})

    def some():
        for _ in range(rng.randrange(4)):
            rng.choice([s.look, s.error, lambda: s.bumps(3), lambda: s.leaves(2, rng.random() < .5)])()

    s.enter()
    s.bumps(5)
    s.leaves(3, True)
    s.enter()
    if kind in ("tokens", "trivia"):
        left = len(s.solid) - s.pos
        for k in (left - 1, left, left + 1, 255, 256, 257, 4096, 65535, 65536, 65537):
            s.op(o="peek_n", n=k)
        s.bumps(n - 100 if kind == "tokens" else 150)
        some()
        s.bumps(120)
        s.error()
        s.look()
    elif kind == "tries":
        # an attempt given up late, one that goes well
        for bad in rng.sample(["early", "late", "deep"], 2) + [None]:
            outer = s.nsv
            s.save()
            s.enter()
            s.look()
            if bad == "early":
                s.error()
            if bad == "deep":
                s.save()
            s.bumps(n - 500)
            if bad == "late":
                s.error()
            if bad == "deep":
                # given up inside of an attempt, which goes well itself
                s.save()
                s.bumps(2)
                s.error()
                s.ok_since(s.nsv - 1)
                s.ok_since(s.nsv - 2)
                s.error()
            s.exit(103)
            s.ok_since(outer)
            s.look()
            if not bad:
                some()
    elif kind == "wrap":
        # wrapped long after it was completed
        s.bumps(2)
        s.exit(101)
        first = s.frames[-1][2][-1]
        s.bumps(n - 500)
        s.precede(first)
        some()
    elif kind == "leaves":
        s.leaves(n - 300, True)
        some()
        s.precede(s.frames[-1][2][-1])
        s.bumps(3)
        s.exit(104)
        s.precede(s.frames[-1][2][1])
        s.bumps(3)
    elif kind == "empties":
        s.leaves(n, False)
        some()
        s.precede(s.frames[-1][2][3])
        s.bumps(2)
    else:
        s.errors(n)
        some()
        s.save()
        s.enter()
        s.bumps(3)
        s.error()
        s.exit(102)
        s.ok_since(s.nsv - 1)
        s.save()
        s.bumps(2)
        s.ok_since(s.nsv - 1)
    some()
    while len(s.frames) > 2:
        s.exit(rng.randrange(100, 106))
    if rng.random() < .5:
        s.bumps(10 ** 9)
    s.exit(100)
    s.op(o="finish")
    return {"c": "parse", "toks": toks, "ops": s.ops}


HUGE = {"C01": ("tokens", "trivia"), "C02": ("wrap", "leaves", "empties"), "C03": ("tries", "errors"),
        "C04": ("tokens", "trivia"), "C05": ("errors", "tokens")}


def effective(sc, obs, drop_looks):
    """The history that counts: without what was backtracked over, nor save points (C03); or without
    looking (C04). Returns the twin scenario and, per twin operation, the index of the original one."""
    keep = []
    if drop_looks:
        # expecting a kind in vain is an error like any other
        keep = [i for i, op in enumerate(sc["ops"]) if op["o"] not in LOOKS]
        return {**sc, "ops": [sc["ops"][i] for i in keep]}, keep
    at = {}
    for i, (op, ob) in enumerate(zip(sc["ops"], obs)):
        if op["o"] == "save":
            at[op["h"]] = len(keep)
        elif op["o"] == "ok_since":
            if ob.get("r") is False:
                keep = keep[:at[op["h"]]]
        else:
            keep.append(i)
    return {**sc, "ops": [sc["ops"][i] for i in keep]}, keep


def judge(c, b, scs, what):
    """Runs the histories (and their twins) and has TraceParse judge the recordings."""
    prop = c.prop
    res = drive(b, scs, c.work)
    d = died(scs, res)
    if d:
        c.violation(f"{what}: {d[1]}", scenario=d[0])
    twins = [None] * len(scs)
    if prop in ("C03", "C04"):
        eff = [effective(sc, r, prop == "C04") for sc, r in zip(scs, res)]
        need = [n for n, (sc, (t, _)) in enumerate(zip(scs, eff)) if len(t["ops"]) < len(sc["ops"])]
        tres = drive(b, [eff[n][0] for n in need], c.work)
        for n, tr in zip(need, tres):
            twins[n] = dict(zip(eff[n][1], tr)) if not isinstance(tr, str) else {}
        c.notes["twins"] = c.notes.get("twins", 0) + len(need)

    owner = PANIC_OWNER[prop]
    index = {id(sc): n for n, sc in enumerate(scs)}

    def to_events(sc, obs):
        evs = [{"o": "reset", "toks": sc["toks"]}]
        tw = twins[index[id(sc)]]
        # a later restored save point: from there on the twin must agree; before it nothing is said
        lastbad = -1
        if prop == "C03":
            for i, (op, ob) in enumerate(zip(sc["ops"], obs)):
                if op["o"] == "ok_since":
                    lastbad = i
        for i, (op, ob) in enumerate(zip(sc["ops"], obs)):
            if (ob.get("panic") and op["o"] not in owner and op["o"] != "bump") or ob.get("nohandle"):
                break
            e = {**op, "obs": ob}
            if tw is not None and i > lastbad and i in tw and (prop == "C03" or op["o"] == "finish"):
                e["twin"] = tw[i]
            if op["o"] == "finish" and prop not in ("C03", "C04") and not ob.get("panic"):
                keep = {"C01": ("toks",), "C02": ("shape", "rshape"), "C05": ("toks", "lens", "rtoks", "rerrs", "rpanic")}[prop]
                e["obs"] = {k: v for k, v in ob.items() if k in keep}
            evs.append(e)
            if ob.get("panic"):
                break
        return evs

    bad, st = validate("TraceParse", scs, res, c.work, env={"FOCUS": prop}, to_events=to_events)
    if bad:
        n, k, exp = min(bad, key=lambda x: len(scs[x[0]]["ops"]))
        c.violation(f"{what} rejected by TraceParse at operation {k}: {json.dumps(scs[n]['ops'][k])[:200]}",
                    scenario=scs[n], op=scs[n]["ops"][k], observed=res[n][k],
                    expected=json.loads(exp) if exp else None,
                    twin=twins[n].get(k) if twins[n] else None)
    c.events += st["events"]
    c.notes.setdefault("trace_checks", []).append({"what": what, "executions": len(scs), **st})
    return res


# which part of the design is walked through for which property
WALKS = {
    "C01": [dict(MaxOps=8, MaxIds=3, MaxErr=1, MaxSaves=1)],
    "C02": [dict(MaxOps=11, MaxIds=4, MaxErr=0, MaxSaves=0, MaxDepth=5, Sources="<- SrcTree")],
    "C03": [dict(MaxOps=8, MaxIds=2, MaxErr=1, MaxSaves=2, Sources="<- SrcSave", TrackUndone="TRUE")],
    "C04": [dict(MaxOps=7, MaxIds=3, MaxErr=1, MaxSaves=1, Looks="TRUE", Kinds="{1, 2, 50}")],
    "C05": [dict(MaxOps=8, MaxIds=2, MaxErr=2, MaxSaves=1)],
}
DEEPER = {
    "C01": [dict(MaxOps=9, MaxIds=4, MaxErr=1, MaxSaves=1), dict(MaxOps=9, MaxIds=2, MaxErr=0, MaxSaves=0, Sources="<- Src4")],
    "C02": [dict(MaxOps=12, MaxIds=5, MaxErr=0, MaxSaves=0, MaxDepth=5, Sources="<- SrcTree"),
            dict(MaxOps=9, MaxIds=3, MaxErr=1, MaxSaves=1)],
    "C03": [dict(MaxOps=9, MaxIds=2, MaxErr=2, MaxSaves=2, Sources="<- SrcSave", TrackUndone="TRUE"),
            dict(MaxOps=10, MaxIds=3, MaxErr=1, MaxSaves=1, Sources="<- SrcSave", TrackUndone="TRUE")],
    "C04": [dict(MaxOps=8, MaxIds=3, MaxErr=1, MaxSaves=1, Looks="TRUE", Kinds="{1, 2, 50}"), dict(MaxOps=9, MaxIds=4, MaxErr=0, MaxSaves=0)],
    "C05": [dict(MaxOps=9, MaxIds=2, MaxErr=3, MaxSaves=2), dict(MaxOps=9, MaxIds=3, MaxErr=2, MaxSaves=1, Sources="<- Src2")],
}


def check(c):
    prop = c.prop
    c.assumptions += ["markers are used last-in first-out and not after the construct they name is gone",
                      "everything is inside one outermost construct when the parser is finished"]
    b = build_driver()
    for kw in c.pick(WALKS, DEEPER)[prop]:
        gcfg = mkcfg(c.work, "GenParse", **kw)
        tests, r = gen_tests("GenParse", gcfg, work=c.work, rng=c.rng, limit=c.pick(40000, None))
        c.add_model(r, f"event-list design agrees with the forest it stands for (MCParse {kw})")
        want = (lambda t: True) if prop == "C04" else (lambda t: t["ops"][-1]["o"] == "finish")
        scs = [{"c": "parse", **t} for t in tests if want(t)]
        if prop == "C03":
            scs = [s for s in scs if any(o["o"] == "ok_since" for o in s["ops"])]
        limit = c.pick(12000, 150000)
        c.notes.setdefault("generated_histories", []).append(len(scs))
        if len(scs) > limit:
            scs = c.rng.sample(scs, limit)
        c.sample(scs[len(scs) // 2])
        judge(c, b, scs, "behaviour of the specification")
        c.impl_tests += len(scs)
    scs = [scenario(c.rng, *c.rng.choice([(4, 12), (8, 40), (30, 120)])) for _ in range(c.pick(600, 12000))]
    if prop == "C03":
        scs = [s for s in scs if any(o["o"] == "save" for o in s["ops"])]
    scs += [deep(c.rng, n, k) for k in DEEP for n in c.pick([40, 300], [40, 70, 300, 300, 1000])]
    if prop == "C02":
        scs += [deep(c.rng, n, "bowl") for n in (260, 300, 520, 700)]
    judge(c, both(), scs, "recorded history")
    c.traces += len(scs)
    big = [huge(c.rng, k) for k in c.pick(HUGE[prop], ("tokens", "trivia", "tries", "wrap", "leaves", "empties") + (("errors",) if prop != "C04" else ()))]
    judge(c, b, big, "recorded history of more than 65536 steps")
    c.traces += len(big)
    c.sample(min(scs, key=lambda s: abs(len(s["ops"]) - 20)))
