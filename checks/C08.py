import copy

import vbuild


def tree(rng, n, vals, kinds):
    root = dict(k=1, v=rng.randrange(1, vals + 1), c=[])
    nodes = [root]
    deep = rng.random()
    for _ in range(n - 1):
        p = nodes[-1] if rng.random() < deep * 0.7 else rng.choice(nodes)
        x = dict(k=rng.randrange(1, kinds + 1), v=rng.randrange(1, vals + 1), c=[])
        p["c"].insert(rng.randrange(len(p["c"]) + 1), x)
        nodes.append(x)
    return root


def all_nodes(t):
    return [t] + [y for x in t["c"] for y in all_nodes(x)]


def edited(rng, t, n, vals, kinds):
    t = copy.deepcopy(t)
    for _ in range(n):
        x = rng.choice(all_nodes(t))
        k = rng.randrange(6)
        if k == 0:
            x["v"] = rng.randrange(1, vals + 1)
        elif k == 1:
            x["c"].insert(rng.randrange(len(x["c"]) + 1), tree(rng, rng.randrange(1, 4), vals, kinds))
        elif k == 2 and x["c"]:
            x["c"].pop(rng.randrange(len(x["c"])))
        elif k == 3 and x["c"]:
            rng.shuffle(x["c"])
        elif k == 4 and x["c"]:
            y = x["c"].pop(rng.randrange(len(x["c"])))
            rng.choice(all_nodes(t))["c"].append(y)
        elif k == 5 and x["c"]:
            j = rng.randrange(len(x["c"]))
            x["c"][j:j + 1] = x["c"][j]["c"]
    return t


def options(rng):
    if rng.random() < 0.4:
        return dict(minh=2, sim=50, maxs=100, upd=2, ins=2, first="top", stop=False, **{"del": 2})
    return dict(minh=rng.randrange(0, 4), sim=rng.choice([0, 20, 50, 80]), maxs=rng.choice([2, 5, 100]), upd=rng.choice([1, 2, 3]), ins=rng.choice([1, 2, 4]),
                first=rng.choice(["top", "top", "greedy"]), stop=rng.random() < 0.15, **{"del": rng.choice([1, 2, 3])})


def pair(rng):
    vals, kinds = rng.randrange(1, 5), rng.randrange(1, 4)
    a = tree(rng, rng.randrange(1, 14), vals, kinds)
    k = rng.random()
    b = copy.deepcopy(a) if k < 0.1 else tree(rng, rng.randrange(1, 14), vals, kinds) if k < 0.25 else edited(rng, a, rng.randrange(1, 4), vals, kinds)
    return dict(op="diff", a=a, b=b, o=options(rng))


def run(c):
    exe = c.build("C08", ["C08.cpp"], sources=["hstd/ext/astdiff/astdiff.cpp", "hstd/ext/astdiff/astdiff_eager.cpp", "hstd/ext/logger.cpp"] + vbuild.CORE, libs=vbuild.CORE_LIBS, per_file={**vbuild.CORE_PLAIN, "logger.cpp": vbuild.PLAIN})
    K = dict(Vals="{1, 2}", Kinds="{1, 2}")
    al = c.generate("TreeDiffMC", c.cfg(constants=dict(K, MaxSize=c.pick(3, 4), MaxEdits=c.pick(1, 2), EmitMode='"all"'), invariants=["Numbered", "OnlySame", "Nothing", "Metric"]),
                    workers=1, limit=c.pick(4000, 40000))
    al += c.generate("TreeDiffMC", c.cfg(constants=dict(Vals="{1, 2, 3}", Kinds="{1}", MaxSize=c.pick(4, 5), MaxEdits=1, EmitMode='"all"'), invariants=["Numbered", "OnlySame", "Nothing", "Metric"]),
                     workers=1, limit=c.pick(2000, 40000))
    sc = [dict(ops=x) for x in al] + [dict(ops=[pair(c.rng) for _ in range(3)]) for _ in range(c.pick(1000, 15000))]
    recs = c.replay("TreeDiffTrace", [exe.result()], sc)

    def mutate(r):
        for e in r["ev"]:
            m = e["r"]["m"]
            if any(m):
                e["r"]["m"] = [0] * len(m)
                return True
    c.binding_selftest("TreeDiffTrace", recs, mutate)
