import vbuild


def history(rng, n, nv):
    ops = [dict(op="addV") for _ in range(nv)]
    for h in (1, 2):
        ops += [dict(op="track", h=h, v=v) for v in range(1, nv + 1) if rng.random() < 0.85]
    par = {}
    for _ in range(n):
        k = rng.random()
        h = rng.choice((1, 1, 2))
        a, b = rng.randrange(1, nv + 1), rng.randrange(1, nv + 1)
        if k < 0.55:
            # nest under a larger number more often than not, so that deep chains form
            p, s = (max(a, b), min(a, b)) if rng.random() < 0.85 else (a, b)
            ops.append(dict(op="nest", h=h, p=p, s=s, via=rng.choice(("own", "graph"))))
            par.setdefault((h, s), p)
        elif k < 0.7 and par:
            (h, s), p = rng.choice(sorted(par.items()))
            if rng.random() < 0.2:
                p = a
            ops.append(dict(op="unnest", h=h, p=p, s=s))
            par.pop((h, s), None)
        elif k < 0.75:
            ops.append(dict(op="untrack", h=h, v=a))
        elif k < 0.8:
            ops.append(dict(op="track", h=h, v=a))
        elif k < 0.83:
            ops.append(dict(op="delV", v=a))
        else:
            ops.append(dict(op="ask", h=h, a=a, b=b, q=sorted(rng.sample(range(1, nv + 1), rng.randrange(0, min(3, nv) + 1)))))
    return ops


def asked(rng, ops):
    nv = sum(o["op"] == "addV" for o in ops)
    gone = {o["v"] for o in ops if o["op"] == "delV"}
    left = [v for v in range(1, nv + 1) if v not in gone]
    if left:
        for _ in range(2):
            ops = ops + [dict(op="ask", h=rng.choice((1, 2)), a=rng.choice(left), b=rng.choice(left), q=sorted(rng.sample(left, rng.randrange(0, min(3, len(left)) + 1))))]
    return dict(ops=ops)


def family(rng):
    """A forest of some depth and questions about groups of vertices of which none lies inside another."""
    nv = rng.randrange(5, 11)
    par = {v: rng.randrange(v + 1, min(nv, v + 3) + 1) for v in range(1, nv) if rng.random() < 0.93}
    ops = [dict(op="addV") for _ in range(nv)] + [dict(op="track", h=1, v=v) for v in range(1, nv + 1)]
    links = sorted(par.items())
    rng.shuffle(links)
    ops += [dict(op="nest", h=1, p=p, s=s, via=rng.choice(("own", "graph"))) for s, p in links]

    def above(v):
        while v in par:
            v = par[v]
            yield v
    for _ in range(6):
        pick = []
        want = rng.randrange(2, 6)
        for v in rng.sample(range(1, nv + 1), nv):
            if len(pick) < want and not any(v in above(w) or w in above(v) for w in pick):
                pick.append(v)
        ops.append(dict(op="ask", h=1, a=rng.randrange(1, nv + 1), b=rng.randrange(1, nv + 1), q=sorted(pick)))
    return dict(ops=ops)


def run(c):
    exe = c.build("G02", ["G02.cpp"], sources=["hstd/ext/graph/base/graph_*.cpp", "hstd/stdlib/dod_base.cpp"] + vbuild.CORE, libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    K = dict(MaxOps=100, MaxV=3, UseH="{1}", EmitMode='"none"')
    INV = dict(view="View", invariants=["Forest", "NoDangling", "Symmetric"], properties=["Exact"])
    c.model_check("HierarchyMC", c.cfg(constants=dict(K, MaxV=c.pick(4, 5)), **INV))
    al = c.generate("HierarchyMC", c.cfg(constants=dict(K, EmitMode='"all"'), **INV), workers=1, limit=c.pick(1500, 20000))
    al += c.generate("HierarchyMC", c.cfg(constants=dict(K, MaxV=2, UseH="{1, 2}", EmitMode='"all"'), **INV), workers=1, limit=c.pick(1000, 20000))
    sc = [asked(c.rng, x) for x in al]
    sc += [dict(ops=history(c.rng, c.rng.randrange(4, 40), c.rng.randrange(2, 8))) for _ in range(c.pick(900, 10000))]
    sc += [family(c.rng) for _ in range(c.pick(300, 4000))]
    recs = c.replay("HierarchyTrace", [exe.result()], sc)

    def mutate(r):
        for e in r["ev"]:
            if any(e["r"]["hs"][0]["par"]):
                e["r"]["hs"][0]["par"] = [0] * len(e["r"]["hs"][0]["par"])
                return True
    c.binding_selftest("HierarchyTrace", recs, mutate)
