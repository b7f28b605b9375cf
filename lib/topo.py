"""C08, C09: sorting graphs. C10: the traversal protocol."""
from common import *


# kinds of sets, and of elements in them
SETS = ["btree", "hash", "fx", "texts", "fx texts", "reverse", "same", "same order", "own", "own texts"]
OF = ["", "", "reverse", "same"]


def rand_graph(rng, n, kind):
    """kinds: dag, near-dag with a few back edges, anything."""
    names = list(range(1, n + 1))
    rng.shuffle(names)
    deg = rng.choice([.5, 1, 2, 4])
    edges = {}
    for i in range(n):
        outs = set()
        for _ in range(min(n, int(rng.expovariate(1 / deg)))):
            j = rng.randrange(n)
            if kind != "any":
                if j == i:
                    continue
                # edges go to earlier ones
                if j > i:
                    j = rng.randrange(i) if i else None
            if j is not None:
                outs.add(names[j])
        edges[names[i]] = outs
    if kind == "back" and n >= 1:
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(n)
            j = min(n - 1, i + rng.choice([0, 1, 1, 2, n]))
            edges[names[i]].add(names[j])
    # nodes without neighbors need not be keys
    return [[k, sorted(v)] for k, v in sorted(edges.items()) if v or rng.random() < .6]


def chain(n, close, extra=0):
    g = [[i, [i + 1]] for i in range(1, n)]
    if close:
        g.append([n, [1]])
    return g


def ladder(n):
    """Many paths: exponential unless each node is handled once."""
    return [[i, [i + 1, i + 2]] for i in range(1, n - 1)]


def huge_graph(rng, kind):
    """More than 65536 nodes, with a certificate of where the only cycle is, if there is one."""
    n = 66000 + rng.randrange(3000)
    loop = []
    if kind == "chain":
        edges = [(i, i + 1) for i in range(1, n)]
        rank = [n - i for i in range(1, n + 1)]
    elif kind == "star":
        edges = [(1, i) for i in range(2, n + 1)]
        rank = [1] + [0] * (n - 1)
    elif kind == "ring":
        # a cycle, far down
        k = n - rng.choice([1, 2, 300])
        edges = [(i, i + 1) for i in range(1, n)] + [(n, k)]
        rank = [max(n - i, n - k) for i in range(1, n + 1)]
        loop = list(range(k, n + 1))
    else:
        edges = sorted({(i, rng.randrange(1, i)) for i in range(2, n + 1) for _ in range(2)})
        rank = list(range(1, n + 1))
    # any names
    name = list(range(1, n + 1))
    if kind != "chain":
        rng.shuffle(name)
    nb = [[] for _ in range(n)]
    for x, y in edges:
        nb[name[x - 1] - 1].append(name[y - 1])
    rk = [0] * n
    for x in range(n):
        rk[name[x] - 1] = rank[x]
    return {"o": "bigsort", "graph": [[k + 1, v] for k, v in enumerate(nb) if v or k % 2], "nb": nb, "rank": rk,
            "loop": [name[x - 1] for x in loop]}


def huge_events(sc, obs):
    evs = [{"o": "reset", "work": [], "refuse": []}]
    for op, ob in zip(sc["ops"], obs):
        if "ok" in ob:
            at = [0] * len(op["nb"])
            for k, x in enumerate(ob["ok"]):
                if 1 <= x <= len(at):
                    at[x - 1] = k + 1
            ob = {**ob, "at": at}
        evs.append({**{k: v for k, v in op.items() if k != "graph"}, "obs": ob})
    return evs


def runs_events(sc, obs):
    """The log of a long traversal, with runs of calls as one."""
    out = []
    log_ = obs[0]["log"]
    k = 0
    while k < len(log_):
        e = log_[k]
        nx = log_[k + 1] if k + 1 < len(log_) else {}
        if (e["o"] == "enter" and e["data"] and nx.get("o") == "process" and nx["x"] == e["x"] and nx["data"] == e["data"][0]
                and nx["reqs"] == [e["x"] + 1]):
            last = out[-1] if out else {}
            if last.get("o") == "dive" and last["hi"] + 1 == e["x"] and last["d"] + e["x"] - last["lo"] == e["data"][0]:
                last["hi"] += 1
            else:
                out.append({"o": "dive", "lo": e["x"], "hi": e["x"], "d": e["data"][0]})
            k += 2
            continue
        last = out[-1] if out else {}
        if e["o"] == "exit" and last.get("o") == "rise" and last["lo"] == e["x"] + 1 and last["level"] - (last["hi"] - e["x"]) == e["level"]:
            last["lo"] -= 1
        elif e["o"] == "exit":
            out.append({"o": "rise", "lo": e["x"], "hi": e["x"], "level": e["level"]})
        else:
            out.append(e)
        k += 1
    return reset(sc) + out


def check(c):
    prop = c.prop
    b = build_driver()
    if prop in ("C08", "C09"):
        tests, r = gen_tests("MCGraph", mkcfg(c.work, "MCGraph", N=c.pick(3, 4)), work=c.work)
        c.add_model(r, "every graph: cyclic iff it has no valid order iff some node is on a cycle (MCGraph)")
        c.add_model(model_check("MCTopo", mkcfg(c.work, "MCTopoGraph", Elems=c.pick("{1, 2, 3}", "{1, 2, 3, 4}")), work=c.work),
                    "the work-stack design sorts every graph rightly (MCTopo)")
        graphs = [t["graph"] for t in tests]
        # renamed: the order of the names must not matter
        ren = []
        for g in graphs:
            m = {1: 7, 2: -3, 3: 5, 4: 0}
            ren.append(sorted([m[k], sorted(m[y] for y in ns)] for k, ns in g))
        for name, gs in (("all small graphs", graphs), ("all small graphs, renamed", ren)):
            scs = [{"c": "topo", "ops": [{"o": "sort", "of": OF[k % 4], "graph": g} for k, g in enumerate(gs[i:i + 20])]} for i in range(0, len(gs), 20)]
            c.run_traces(b, scs, "TraceTopo", env={"FOCUS": prop}, what=name, to_events=sort_events)
            c.traces -= len(scs)
            c.impl_tests += len(gs)
        gs = [rand_graph(c.rng, c.rng.choice([2, 4, 5, 6, 8, 12, 30]), c.rng.choice(["dag", "back", "any"]))
              for _ in range(c.pick(3000, 60000))]
        gs += [rand_graph(c.rng, c.rng.choice([100, 200]), k) for k in ["dag", "back"] * c.pick(8, 60)]
        gs += [chain(n, z) for n in c.pick([300], [300, 2000]) for z in (False, True)] + [ladder(150)]
        c.sample(gs[0])
        scs = [{"c": "topo", "ops": [{"o": "sort", "of": c.rng.choice(OF), "graph": g}]} for g in gs]
        c.run_traces(both(), scs, "TraceTopo", env={"FOCUS": prop}, what="recorded sort", to_events=sort_events)
        kinds = c.pick(["chain", "ring", "star"] if prop == "C08" else ["ring", "chain"], ["chain", "star", "ring", "ring", "random"])
        big = [{"c": "topo", "ops": [huge_graph(c.rng, k)]} for k in kinds]
        c.run_traces(both(), big, "TraceTopo", env={"FOCUS": prop}, what="more than 65536 nodes", to_events=huge_events, per_chunk=1)
        return
    cfgs = c.pick([dict(MaxReqs=2, MaxWork=1), dict(Elems="{1, 2}", MaxReqs=2, MaxWork=2, MaxSkip=1, Refuse="TRUE")],
                  [dict(MaxReqs=2, MaxWork=2), dict(Elems="{1, 2}", MaxReqs=3, MaxWork=3, MaxSkip=2),
                   dict(MaxReqs=2, MaxWork=1, MaxSkip=0, Refuse="TRUE")])
    for kw in cfgs:
        tests, r = gen_tests("MCTopo", mkcfg(c.work, "MCTopo", **kw), work=c.work, rng=c.rng, limit=c.pick(6000, 40000))
        c.add_model(r, f"the work-stack design keeps to the protocol for every visitor and start (MCTopo {kw})")
        scs = []
        for n, t in enumerate(tests):
            scs.append(run_scenario(t["work"], [[k + 1, v] for k, v in enumerate(t["reqs"])],
                                    [[k + 1, v] for k, v in enumerate(t["skip"])], SETS[n // 2 % len(SETS)], n % 2 == 0, t["refuse"]))
        c.sample(scs[len(scs) // 2])
        c.run_traces(b, scs, "TraceTopo", env={"FOCUS": prop}, what="traversal by the specification", to_events=run_events)
        c.traces -= len(scs)
        c.impl_tests += len(scs)
    scs = []
    for _ in range(c.pick(500, 10000)):
        n = c.rng.choice([3, 5, 8, 20])
        g = rand_graph(c.rng, n, c.rng.choice(["dag", "back", "any"]))
        reqs = [[k, [c.rng.choice(v) for _ in range(len(v) + c.rng.choice([0, 0, 1, 2]))]] for k, v in g if v]
        work = [c.rng.randrange(1, n + 1) for _ in range(c.rng.choice([0, 1, 2, n]))]
        skip = [[x, c.rng.choice([1, 1, 2, 9])] for x in range(1, n + 1) if c.rng.random() < .15]
        refuse = [x for x in range(1, n + 1) if c.rng.random() < .8] if c.rng.random() < .4 else []
        scs.append(run_scenario(work, reqs, skip, c.rng.choice(SETS), c.rng.random() < .5, refuse))
    for n in c.pick([200], [200, 1000]):
        scs.append(run_scenario([1], [[i, [i + 1]] for i in range(1, n)], [], "fx", True))
        scs.append(run_scenario(list(range(1, n)), [[i, [i + 1, i + 2, 1]] for i in range(1, n)], [], "btree", False))
    c.sample(scs[0])
    c.run_traces(both(), scs, "TraceTopo", env={"FOCUS": prop}, what="recorded traversal", to_events=run_events)
    n = 66000 + c.rng.randrange(3000)
    big = [run_scenario([1], [[i, [i + 1]] for i in range(1, n)], [], "fx", True),
           run_scenario([1, n // 2], [[i, [i + 1]] for i in range(1, n)] + [[n, [c.rng.randrange(n - 300, n)]]], [], "btree", False),
           run_scenario(list(range(n - 9, 0, -9)), [[i, [i + 1]] for i in range(1, n)], [], "hash", False)]
    c.run_traces(both(), big, "TraceTopo", env={"FOCUS": prop}, what="traversal of more than 65536 elements", to_events=runs_events, per_chunk=1)


def run_scenario(work, reqs, skip, st, bulk, refuse=()):
    return {"c": "topo", "ops": [{"o": "run", "work": work, "reqs": reqs, "skip": skip, "set": st, "bulk": bulk, "refuse": sorted(refuse)}]}


def reset(sc):
    op = sc["ops"][0]
    return [{"o": "reset", "work": op["work"], "refuse": op["refuse"]}]


def sort_events(sc, obs):
    return [{"o": "reset", "work": [], "refuse": []}] + [{**op, "obs": ob} for op, ob in zip(sc["ops"], obs)]


def run_events(sc, obs):
    return reset(sc) + obs[0]["log"]
