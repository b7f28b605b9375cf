"""C17: missing patterns. C18: unreachable patterns."""
from common import *

ANY, OR, BUT = 0, -2, -3


def data(*ks):
    return {"lit": False, "size": 0, "cons": [{"c": c, "args": list(a)} for c, a in ks]}


LIT = {"lit": True, "size": 0, "cons": []}


def num(n):
    return {"lit": False, "size": n, "cons": []}


def inhabited(sig):
    inh = [False] * len(sig)
    for _ in sig:
        inh = [t["lit"] or t["size"] > 0 or any(all(inh[a - 1] for a in k["args"]) for k in t["cons"]) for t in sig]
    return inh


def depth(p):
    m = max((depth(q) for q in p["args"]), default=0)
    return 0 if p["c"] == ANY else m if p["c"] == OR else 1 + m


def lits(p):
    return set().union(*(lits(q) for q in p["args"])) | ({p["c"]} if 1000 < p["c"] < 2000 else set())


def count(sig, inh, nl, t, d, memo):
    """How many values there are, looked into d deep."""
    if not inh[t - 1]:
        return 0
    if d == 0:
        return 1
    if (t, d) not in memo:
        ty = sig[t - 1]
        if ty["lit"]:
            n = nl + 1
        elif ty["size"]:
            n = ty["size"]
        else:
            n = 0
            for k in ty["cons"]:
                m = 1
                for a in k["args"]:
                    m *= count(sig, inh, nl, a, d - 1, memo)
                n += m
        memo[t, d] = min(n, 10 ** 9)
    return memo[t, d]


def rand_sig(rng):
    kind = rng.random()
    if kind < .1:
        return [data((1, [2] * rng.choice([3, 4, 5]))), data((2, []), (3, []))]
    if kind < .2:
        return [data((1, []), (2, [2, 1])), rng.choice([data((3, []), (4, [])), LIT, num(3), data((3, [])), data()])]
    if kind < .25:
        return [rng.choice([LIT, num(rng.choice([1, 2, 7, 20]))])]
    n = rng.choice([2, 3, 3, 4])
    sig, c = [], 0
    for t in range(1, n + 1):
        x = rng.random()
        if t > 1 and x < .12:
            sig.append(LIT)
        elif t > 1 and x < .25:
            sig.append(num(rng.choice([1, 2, 3, 5, 9])))
        elif t > 1 and x < .32:
            sig.append(data())
        else:
            ks = []
            for _ in range(rng.choice([1, 2, 2, 3, 4])):
                c += 1
                # mostly later types, so that most types are finite
                pool = list(range(t + 1, n + 1)) or [t]
                args = [rng.choice(pool) if rng.random() < .85 else rng.randint(1, n)
                        for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
                ks.append((c, args if not (t == n and rng.random() < .8) else []))
            sig.append(data(*ks))
    return sig


class Gen:
    def __init__(self, rng, sig):
        self.rng, self.sig, self.n = rng, sig, 0
        self.bad = None
        self.noidx = rng.choice([0, 0, .1])
        self.same = rng.random() < .05
        self.or_ = rng.choice([0, .1, .25, .4])
        self.any_ = rng.choice([.1, .3, .6])

    def idx(self):
        if self.rng.random() < self.noidx:
            return -1
        if self.same and self.n and self.rng.random() < .3:
            return self.rng.randint(1, self.n)
        self.n += 1
        return self.n

    def pat(self, t, d):
        rng = self.rng
        i = self.idx()
        if rng.random() < self.or_ and d >= 0:
            k = rng.choice([0, 1, 2, 2, 3]) if rng.random() < .3 else 2
            return {"c": OR, "args": [self.pat(t, d if rng.random() < .6 else d - 1) for _ in range(k)], "i": i}
        ty = self.sig[t - 1]
        nothing = not ty["lit"] and not ty["size"] and not ty["cons"]
        if d <= 0 or rng.random() < self.any_ or nothing:
            return {"c": ANY, "args": [], "i": i}
        if ty["lit"]:
            return {"c": 1001 + rng.randrange(3), "args": [], "i": i}
        if ty["size"]:
            lo = rng.randrange(ty["size"])
            hi = rng.choice([lo, rng.randrange(lo, ty["size"]), ty["size"] - 1])
            return {"c": 2000 + 100 * lo + hi, "args": [], "i": i}
        k = rng.choice(ty["cons"])
        args = [self.pat(a, d - 1) for a in k["args"]]
        if args and rng.random() < .15:
            args = args[:rng.randrange(len(args))]
        return {"c": k["c"], "args": args, "i": i}


def spots(p, out):
    if p["c"] != OR:
        out.append(p)
    for q in p["args"]:
        spots(q, out)
    return out


def spoil(rng, sig, pats):
    """Makes one pattern ill-formed (or, seldom, leaves it well-formed: the specification decides)."""
    sp = [s for p in pats for s in spots(p, [])]
    if not sp:
        return
    p = rng.choice(sp)
    extra = {"c": ANY, "args": [], "i": rng.choice([-1, 5000])}
    x = rng.randrange(4)
    if x == 0 or p["c"] == ANY and x == 1:
        p["args"] = p["args"] + [extra] * rng.choice([1, 1, 2])
    elif x == 1:
        p["args"] = p["args"] + [extra] * 5
    elif x == 2:
        p["c"] = rng.choice([1, 2, 3, 4, 77, 1001, 2000, 2009, 2100])
    else:
        p["c"], p["args"] = 78, []


def scenario(rng, big):
    while True:
        sig = rand_sig(rng)
        g = Gen(rng, sig)
        rows = rng.choice([0, 1, 2, 3, 4, 5, 6, 8]) if not big else rng.choice([6, 10, 14])
        d = rng.choice([1, 2, 2, 3, 3, 4])
        pats = [g.pat(1, d) for _ in range(rows)]
        inh = inhabited(sig)
        lang = rng.choice(["full", "full", "full", "fewer", "deep"])
        ls = set().union(*(lits(p) for p in pats)) if pats else set()
        dd = max([depth(p) for p in pats] + [1])
        if lang == "deep":
            # every type must be finite in depth; missing patterns are as deep as it
            seen = []

            def rank(t, path):
                if t in path:
                    return 99
                ks = sig[t - 1]["cons"]
                return 1 + max((rank(a, path + [t]) for k in ks for a in k["args"]), default=0)
            dd = max(dd, rank(1, []))
            if dd > 20:
                continue
        n = count(sig, inh, len(ls), 1, dd, {})
        if n > (250 if not big else 900):
            continue
        if rng.random() < .06 and not big:
            spoil(rng, sig, pats)
        return {"o": "check", "sig": sig, "ty": 1, "pats": pats, "lang": lang}


def large(rng, kind, n):
    """Many constructors, arms, alternatives or arguments; deep patterns."""
    ids = iter(range(1, 10 ** 6))

    def p(c, args=()):
        return {"c": c, "args": list(args), "i": next(ids)}
    if kind in ("cons", "lits", "ors", "or", "nest"):
        names = list(range(1, n + 1)) if kind != "lits" else list(range(1001, 1001 + n))
        sig = [LIT] if kind == "lits" else [data(*[(x, []) for x in names])]
        left = rng.sample(names, rng.choice([0, 1, 2, n // 2]))
        rest = [x for x in names if x not in left]
        rng.shuffle(rest)
        if kind == "ors":
            k = rng.randrange(len(rest) + 1)
            pats = [p(OR, [p(x) for x in rest[:k]]), p(OR, [p(x) for x in rest[k:] + rest[:2]])]
        elif kind == "or":
            pats = [p(OR, [p(x) for x in rest])]
        elif kind == "nest":
            # alternatives within alternatives
            q = [p(x) for x in rest]
            while len(q) > 1:
                k = max(2, -(-len(q) // 30))
                at = rng.randrange(len(q) - min(k, len(q)) + 1)
                q[at:at + k] = [p(OR, q[at:at + k])]
            pats = q
        else:
            pats = [p(x) for x in rest]
        # at the end, some once more, and maybe all
        pats += [p(x) for x in rng.sample(names, 2)] + ([p(ANY)] if rng.random() < .4 else [])
        pats += [p(rng.choice(names))] if rng.random() < .3 else []
    elif kind == "tower":
        n = rng.choice([20, 40])
        sig = [data((1, []), (2, [1]))]

        def tower(k, top):
            q = p(top)
            for _ in range(k):
                q = p(2, [q])
            return q
        ks = rng.sample(range(n), rng.choice([3, n]))
        pats = [tower(k, 1) for k in ks] + ([tower(n, ANY)] if rng.random() < .5 else []) + [tower(rng.choice(ks), 1)]
    else:
        n = rng.choice([10, 33, 70])
        at = sorted(rng.sample(range(n), 3))
        sig = [data((1, [3 if k in at else 2 for k in range(n)])), data((4, [])), data((5, []), (6, []))]

        def row():
            args = [p(rng.choice([ANY, 5, 6, 5, 6]) if k in at else rng.choice([ANY, 4])) for k in range(n)]
            return p(1, args[:rng.choice([n, n, at[-1] + 1])])
        pats = [row() for _ in range(rng.choice([3, 8]))]
    return {"o": "check", "sig": sig, "ty": 1, "pats": pats, "lang": "fewer" if kind != "lits" and rng.random() < .3 else "full"}


def check(c):
    prop = c.prop
    c.assumptions += ["the language given to the checker is consistent: splitting gives constructors that cover "
                      "the type's values without overlap, a constructor covers itself, any covers all",
                      "indices of patterns are compared as the user gave them: a shared index is reached if any of "
                      "the patterns bearing it is"]
    b = build_driver()
    tests, r = gen_tests("MCPat", mkcfg(c.work, "MCPat", **c.pick({}, dict(MaxRows=3))), work=c.work,
                         rng=c.rng, limit=c.pick(3000, 30000))
    c.add_model(r, "usefulness on a matrix, or-expansion and ticking off agree with the meaning of patterns (MCPat)")
    ops = [{"o": "check", "sig": t["sig"], "ty": 1, "pats": t["pats"], "lang": lang}
           for t in tests for lang in (["full", "fewer"] if not c.thorough else ["full"])]
    # splitting all the way down is for types of finite depth
    ops += [{"o": "check", "sig": t["sig"], "ty": 1, "pats": t["pats"], "lang": "deep"}
            for t in tests[::3] if all(a > n + 1 for n, ty in enumerate(t["sig"]) for k in ty["cons"] for a in k["args"])]
    scs = [{"c": "pat", "ops": [x]} for x in ops]
    c.sample(scs[len(scs) // 2])
    c.run_traces(b, scs, "TracePat", env={"FOCUS": prop}, what="match of the specification")
    c.traces -= len(scs)
    c.impl_tests += len(scs)
    scs = [{"c": "pat", "ops": [scenario(c.rng, False)]} for _ in range(c.pick(5000, 60000))]
    scs += [{"c": "pat", "ops": [scenario(c.rng, True)]} for _ in range(c.pick(200, 3000))]
    scs += [{"c": "pat", "ops": [large(c.rng, k, n)]} for k in ("cons", "lits", "ors", "or", "nest", "tower", "wide") for n in (70, 140, 270, 400) for _ in range(c.pick(1, 10))]
    c.rng.shuffle(scs)
    c.sample(scs[0])
    c.notes["well_formed_matches"] = len(scs)
    c.run_traces(both(), scs, "TracePat", env={"FOCUS": prop})
