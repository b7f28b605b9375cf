"""C30: markers that are forgotten."""
from common import *
from small import cps


def rand_life(rng, n):
    """A history of markers, by the rules: constructs last in first out."""
    ops, kinds, cons, strs, completed = [], [], [], [], False
    for _ in range(n):
        kind = rng.choice(["enter", "enter", "mark", "mark", "P", "P", "P", "S", "S", "save", "bump", "error", "precede"])
        if kind in ("enter", "precede"):
            if kind == "precede" and not completed:
                continue
            ops.append({"o": kind})
            kinds.append("P")
            cons.append(len(kinds))
            completed = False
        elif kind == "mark":
            ops.append({"o": "mark"})
            kinds.append("S")
            strs.append(len(kinds))
        elif kind == "P" and cons:
            how = rng.choice(["exit", "exit", "abandon", "drop", "lost"])
            ops.append({"o": how, "m": cons.pop()})
            completed = how == "exit"
        elif kind == "S" and strs:
            ops.append({"o": rng.choice(["since", "did", "drop", "lost"]), "m": strs.pop(rng.randrange(len(strs)))})
        elif kind == "bump":
            ops.append({"o": "bump"})
            completed = False
        elif kind in ("save", "error"):
            ops.append({"o": kind})
    return ops


def check(c):
    tests, r = gen_tests("MCMark", mkcfg(c.work, "MCMark", MaxOps=c.pick(5, 6)), work=c.work, rng=c.rng, limit=c.pick(6000, 40000))
    c.add_model(r, "a bomb in each marker, defused when it is given back, notices exactly the forgotten ones (MCMark)")
    # also where there are no more tokens, or no more text
    toks, texts = [[False, True, False] * 3, [], [True], [False], [True, False]], ["aé😀bcdefgh", "", "a", "é😀", "\n"]
    scs = [{"c": "mark", "toks": toks[k % 5], "text": cps(texts[k % 5]), "ops": t["ops"]} for k, t in enumerate(tests)]
    # the shortest lives everywhere
    scs += [{"c": "mark", "toks": toks[k], "text": cps(texts[k]), "ops": t["ops"]} for t in tests if len(t["ops"]) <= 3 for k in range(5)]
    rnd = [{"c": "mark", "toks": [c.rng.random() < .3 for _ in range(c.rng.randrange(12))], "text": cps("".join(c.rng.choice("aé\n😀") for _ in range(c.rng.choice([0, 1, 2, 5, 9])))),
            "ops": rand_life(c.rng, c.rng.choice([5, 12, 40, 200]))} for _ in range(c.pick(400, 8000))]
    # forgotten late in long lives
    rnd += [{"c": "mark", "toks": [c.rng.random() < .3 for _ in range(k)], "text": cps("aé\n😀" * (k // 4)), "ops": rand_life(c.rng, k)}
            for k in c.pick((700, 1500, 3000), (700, 1500, 3000, 3000, 9000))]
    c.sample(scs[len(scs) // 2])
    c.sample(rnd[0])
    for debug, b in zip((True, False), both()):
        def events(sc, obs, debug=debug):
            return [{"o": "reset", "debug": debug}] + [{**op, "obs": ob} for op, ob in zip(sc["ops"], obs)]
        build = "debug" if debug else "release"
        c.run_traces(b, scs, "TraceMark", what=f"lives of markers by the specification ({build} build)", to_events=events)
        c.traces -= len(scs)
        c.impl_tests += len(scs)
        c.run_traces(b, rnd, "TraceMark", what=f"recorded lives of markers ({build} build)", to_events=events)
