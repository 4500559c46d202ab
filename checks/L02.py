import vbuild

ARGS = [[], [["x", "1"]], [["x", "0"], ["yy", "text"]], [["x", "-5"], ["", ""]]]


def prog(rng, depth):
    b = []
    for _ in range(rng.randrange(0, 5)):
        k = rng.random()
        n = rng.randrange(100)
        if depth and k < 0.25:
            b.append(dict(op=rng.choice(["block", "try"]), b=prog(rng, depth - 1)))
        elif k < 0.6:
            o = dict(op=rng.choice(["scope", "func"]), a=rng.choice(["", "a", "b", "{}"]), n=n)
            if o["op"] == "func":
                o["args"] = rng.choice(ARGS)
            b.append(o)
        elif k < 0.7:
            b.append(dict(op="throw"))
        elif k < 0.78:
            b.append(dict(op=rng.choice(["start", "end"]), n=n))
        else:
            b.append(flat(rng))
    return b


def flat(rng):
    k = rng.choice(["add", "start", "end", "fs", "fe", "se", "sx", "jump", "text"])
    o = dict(op=k, n=rng.randrange(100))
    if k == "add":
        return dict(op="add", p=rng.randrange(3))
    if k not in ("start", "end"):
        o["a"] = rng.choice(["", "a", "b", "{}"])
    if k in ("fs", "fe"):
        o["args"] = rng.choice(ARGS)
    if k == "text":
        o["b"] = rng.choice(["", "v", "{0}"])
    return o


def run(c):
    K = dict(MaxOps=100, MaxProcs=c.pick(2, 3), EmitMode='"none"')
    c.model_check("TrackingMC", c.cfg(constants=dict(K, MaxOps=6), view="View", properties=["Quiet", "Equal", "Balanced"]))
    al = c.generate("TrackingMC", c.cfg(constants=dict(K, EmitMode='"all"'), view="View"), workers=1, limit=c.pick(6000, 60000))
    exe = vbuild.build("L02", ["L02.cpp"], sources=["hstd/ext/logger.cpp", "hstd/ext/log_graph_tracker.cpp"] + vbuild.CORE, libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    sc = [dict(ops=x) for x in al]
    for _ in range(c.pick(2000, 20000)):
        ops = [dict(op="add", p=c.rng.randrange(3)) for _ in range(c.rng.randrange(0, 4))]
        ops += [flat(c.rng) if c.rng.random() < 0.6 else dict(op="run", b=prog(c.rng, 4)) for _ in range(c.rng.randrange(1, 12))]
        sc.append(dict(ops=ops))
    recs = c.replay("TrackingTrace", [exe], sc)

    def mutate(r):
        for e in r["ev"]:
            if len(e["r"]["out"]) > 1 and e["r"]["out"][0] != e["r"]["out"][1]:
                e["r"]["out"][0], e["r"]["out"][1] = e["r"]["out"][1], e["r"]["out"][0]
                return True
    c.binding_selftest("TrackingTrace", recs, mutate)
