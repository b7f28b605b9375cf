"""C06, C07: chain-map."""
from common import *


def scenario_random(rng, length, nkeys, p_string):
    ops = []
    val = 0
    n = 4
    keys = list(range(1, nkeys + 1))
    # a profile per scenario, so that different regimes (deep stacks, much sharing, heavy mutation)
    # are all reached
    prof = rng.choice(["mixed", "layers", "share", "mutate", "queries"])
    w = {"insert": 8, "get": 4, "empty": 1, "iter": 1, "iterpart": 1, "getmut": 3, "remove": 3,
         "itermut": 1, "drain": .6, "drainpart": .4, "consolidate": 1.5, "extend": 2, "collect": 1,
         "array": .5, "append": 1.5, "clone": 3, "intoiter": .4, "intoiterpart": .3, "new": .4}
    if prof == "layers":
        w.update(insert=20, extend=8, getmut=.2, remove=.3, itermut=.1, drain=.1, drainpart=.1, consolidate=.2,
                 intoiter=.05, intoiterpart=.05, collect=.2, array=.1, new=.05)
    elif prof == "share":
        w.update(clone=10, consolidate=4, append=4)
    elif prof == "mutate":
        w.update(getmut=10, remove=8, itermut=3)
    elif prof == "queries":
        w.update(get=15, iter=4, iterpart=4, empty=4)
    names, weights = list(w), list(w.values())
    for _ in range(length):
        o = rng.choices(names, weights)[0]
        m = rng.randrange(n) if rng.random() < .6 else 0
        op = {"o": o, "m": m}
        val += 1
        if o in ("insert", "getmut"):
            op.update(k=rng.choice(keys), v=val)
        elif o in ("get", "remove"):
            op["k"] = rng.choice(keys)
        elif o == "itermut":
            op["v"] = rng.choice([1000, 5000])
        elif o in ("extend", "collect", "array"):
            ks = [rng.choice(keys) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
            if o == "array":
                ks = ks[:3]
            op["xs"] = [[k, val * 10 + i] for i, k in enumerate(ks)]
        elif o in ("append", "clone"):
            op["b"] = rng.choice([x for x in range(n) if x != m])
        elif o in ("iterpart", "drainpart", "intoiterpart"):
            op["c"] = rng.randrange(4)
        if o == "clone" and rng.random() < .35:
            op["into"] = True
        if o in ("iter", "itermut", "drain", "intoiter", "extend", "collect") and rng.random() < .6:
            op["via"] = rng.randrange(1, 5)
        ops.append(op)
    return {"c": "chain", "n": n, "str": rng.random() < p_string, "same": rng.random() < .2, "snap": True, "ops": ops}


def scenario_threads(rng, length, nkeys):
    """Clones of one map, each then used in a thread of its own."""
    sc = scenario_random(rng, rng.choice([5, 15, 30]), nkeys, .4)
    ops = sc["ops"] + [{"o": "clone", "m": 0, "b": b} for b in (1, 2, 3) if rng.random() < .9]
    runs = []
    for m in range(4):
        xs = scenario_random(rng, 3 * length, nkeys, 0)["ops"]
        runs.append([{**x, "m": m} for x in xs if "b" not in x][:length])
    return {**sc, "ops": ops + [{"o": "par", "m": 0, "runs": runs}, {"o": "empty", "m": 0}]}


def thread_events(sc, obs):
    """Maps are independent, so what the threads did is judged one thread after the other."""
    evs = [{"o": "reset"}]
    for op, ob in zip(sc["ops"], obs):
        if op["o"] == "par":
            for k, (run, res) in enumerate(zip(op["runs"], ob["r"])):
                evs += [{**x, "obs": r, "thread": k + 1} for x, r in zip(run, res)]
            evs.append({"o": "empty", "m": 0, "obs": ob, "thread": 0})
        else:
            evs.append({**op, "obs": ob})
    return evs


def scenario_big(rng, layers, nkeys):
    """Very deep stacks and large maps: thresholds in the number of layers or entries."""
    ops = [{"o": "extend", "m": 1, "xs": [[k, k] for k in range(1, nkeys + 1)]}]
    for i in range(layers):
        ops.append({"o": "insert", "m": 0, "k": rng.randrange(1, nkeys * 2), "v": i})
        if i % 7 == 0:
            ops.append({"o": "get", "m": 0, "k": rng.randrange(1, nkeys * 2)})
    ops += [{"o": "iter", "m": 0}, {"o": "clone", "m": 0, "b": 2}, {"o": "append", "m": 0, "b": 1},
            {"o": "iter", "m": 0}, {"o": "remove", "m": 0, "k": 3}, {"o": "getmut", "m": 2, "k": 3, "v": 77777},
            {"o": "consolidate", "m": 2}, {"o": "clone", "m": 2, "b": 3},
            {"o": "itermut", "m": 2, "v": 9}, {"o": "iter", "m": 3}, {"o": "drain", "m": 3}, {"o": "iter", "m": 2},
            {"o": "iter", "m": 0}, {"o": "intoiter", "m": 0}]
    return {"c": "chain", "n": 4, "str": rng.random() < .5, "snap": False, "ops": ops}


def scenario_large(rng, nkeys, layers):
    """Clones of maps with many entries in a layer, and of ones with many layers: each way of changing one."""
    ks = list(range(1, nkeys + 1))
    ops = []
    for m in (0, 2):
        ops.append({"o": "extend", "m": m, "xs": [[k, k] for k in ks]})
        ops += [{"o": "insert", "m": m, "k": rng.choice(ks), "v": 10000 + k} for k in range(layers)]
        ops.append({"o": "clone", "m": m, "b": m + 1})
    k = lambda: rng.randrange(1, nkeys + 3)
    for _ in range(3):
        for o in rng.sample(["getmut", "remove", "insert", "itermut", "extend", "consolidate", "clone", "append", "drainpart"], 7):
            m = rng.randrange(4)
            op = {"o": o, "m": m}
            if o in ("getmut", "insert"):
                op.update(k=k(), v=20000 + len(ops))
            elif o == "remove":
                op["k"] = k()
            elif o == "itermut":
                op["v"] = 7
            elif o == "extend":
                op["xs"] = [[k(), 30000]]
            elif o in ("clone", "append"):
                op["b"] = (m + rng.randrange(1, 4)) % 4
            elif o == "drainpart":
                op["c"] = 2
                # so that there is something left
                ops.append({"o": "clone", "m": m, "b": (m + 1) % 4})
            ops.append(op)
    return {"c": "chain", "n": 4, "str": rng.random() < .5, "snap": True, "ops": ops}


def scenario_huge(rng, kind):
    """More layers, or more entries, than 16 bits can count."""
    n = 66000 + rng.randrange(3000)
    mod = rng.choice([3, 20])
    if kind == "layers":
        ops = [{"o": "insert", "m": 0, "k": 30, "v": 5}, {"o": "churn", "m": 0, "n": n, "mod": mod, "v": 100}]
    else:
        ops = [{"o": "fill", "m": 0, "lo": 0, "hi": n, "v": 7}]
    ops += [{"o": "clone", "m": 0, "b": 1}, {"o": "insert", "m": 0, "k": 1, "v": 1}, {"o": "insert", "m": 1, "k": 40, "v": 2}]
    ops += [{"o": "get", "m": m, "k": k} for m in (0, 1) for k in (0, 1, 2, 30, 40)]
    ops += [{"o": "remove", "m": 1, "k": 2}, {"o": "getmut", "m": 1, "k": 30, "v": 9}, {"o": "iter", "m": 0}, {"o": "iter", "m": 1},
            {"o": "churn", "m": 2, "n": 5, "mod": 3, "v": 50}, {"o": "append", "m": 2, "b": 0}, {"o": "get", "m": 2, "k": 1},
            {"o": "empty", "m": 0}, {"o": "consolidate", "m": 2}, {"o": "iter", "m": 2}, {"o": "itermut", "m": 1, "v": 3},
            {"o": "iter", "m": 1}, {"o": "drain", "m": 2}, {"o": "intoiter", "m": 1}, {"o": "empty", "m": 2}]
    return {"c": "chain", "n": 4, "str": rng.random() < .5, "snap": False, "ops": ops}


def check(c):
    focus = c.prop
    c.assumptions += ["keys have lawful Hash/Eq/Borrow", "maps are used from one thread at a time (the API takes &mut)"]
    r = model_check("MCChain", "MCChain" if not c.thorough else "MCChainBig", work=c.work)
    c.add_model(r, "layered copy-on-write design refines independent ordinary maps (MCChain)")
    tests, g = gen_tests("GenChain", c.pick("GenChain", "GenChainBig"), work=c.work, rng=c.rng,
                         limit=c.pick(30000, None))
    c.notes["transitions_printed"] = g.printed
    c.add_model(g, "state graph walked for tests (GenChain)")
    c.sample(tests[len(tests) // 2])
    bins = [("default", build_driver()), ("sync feature", build_driver(sync=True))]
    if c.thorough:
        bins.append(("release", build_driver(release=True)))

    def vary(op):
        if op["o"] == "clone" and c.rng.random() < .3:
            return {**op, "into": True}
        if op["o"] in ("iter", "itermut", "drain", "intoiter", "extend", "collect") and c.rng.random() < .5:
            return {**op, "via": c.rng.randrange(1, 5)}
        return op

    def mk(t):
        return {"c": "chain", "n": 2, "str": t["t"]["m"] == 1, "same": len(t["p"]) % 4 == 3, "ops": t["p"] + [{k: v for k, v in t["t"].items() if k != "obs"}]}

    # other ways of doing the same
    tests = [{**t, "p": [vary(op) for op in t["p"]], "t": vary(t["t"])} for t in tests]

    def cmp(t, obs):
        exp, got = t["t"]["obs"], obs[-1]
        if got.get("panic"):
            return "panics", exp
        touched = {t["t"]["m"], t["t"].get("b", t["t"]["m"])}
        if focus == "C06":
            if got["r"] != exp["r"]:
                return "wrong result", exp
            if any(got["snap"][h] != exp["snap"][h] for h in touched):
                return "wrong contents afterwards", exp
        elif any(got["snap"][h] != exp["snap"][h] for h in (0, 1) if h not in touched):
            return "another map changed", exp
        elif t["t"]["o"] == "clone" and any(got["snap"][h] != exp["snap"][h] for h in touched):
            return "not a clone", exp
        return None

    scs = [scenario_random(c.rng, c.rng.choice([10, 30, 60, 120]), c.rng.choice([2, 3, 6, 12]), .4)
           for _ in range(c.pick(400, 6000))]
    if focus == "C06":
        scs += [scenario_big(c.rng, n, k) for n, k in c.pick([(70, 40), (300, 150)], [(70, 40), (300, 150), (1100, 300), (2100, 50)])]
        big = [scenario_huge(c.rng, k) for k in ("layers", "entries")]
        c.run_traces(build_driver(release=True), big, "TraceChain", env={"FOCUS": focus}, what="more than 65536 layers or entries")
    if focus == "C07":
        scs += [scenario_large(c.rng, n, k) for n, k in c.pick([(20, 70), (70, 3), (150, 0), (150, 5), (300, 40), (1100, 2)],
                                                               [(20, 70), (70, 3), (150, 0), (300, 40), (1100, 300), (5000, 1)] * 3)]
    rel = [scenario_random(c.rng, c.rng.choice([10, 60]), c.rng.choice([2, 6]), .4) for _ in range(c.pick(200, 0))]
    if rel:
        c.run_traces(build_driver(release=True), rel, "TraceChain", env={"FOCUS": focus}, what="recorded history (release)")
    for name, b in bins:
        log(f"driving the {name} build")
        c.run_tests(b, tests, mk, cmp, f"spec behaviour ({name})")
        c.run_traces(b, scs, "TraceChain", env={"FOCUS": focus}, what=f"recorded history ({name})")
    c.sample(scs[0])
    if focus == "C07":
        scs = [scenario_threads(c.rng, c.rng.choice([5, 30, 100]), c.rng.choice([2, 6, 20])) for _ in range(c.pick(150, 3000))]
        c.run_traces(build_driver(sync=True), scs, "TraceChain", env={"FOCUS": focus}, what="clones in threads", to_events=thread_events)
