import vbuild

NAMES = ["", "p", "q", "x", "y"]


def history(rng, n):
    """Random edits; items are addressed by the number they got, the specification decides what exists."""
    ops, nv, ne, np, live = [], 0, 0, 0, set()
    vn, en, edges = {}, [], {}
    for _ in range(n):
        k = rng.random()
        if not live or k < 0.2:
            name = rng.choice(NAMES)
            ops.append(dict(op="addV", n=name))
            if name == "" or name not in vn.values():
                nv += 1
                live.add(nv)
                vn[nv] = name
        elif k < 0.28:
            v = rng.randrange(1, nv + 1)
            ops.append(dict(op="delV", v=v))
            live.discard(v)
            vn.pop(v, None)
            edges = {e: x for e, x in edges.items() if v not in x[1:3]}
        elif k < 0.55:
            L = sorted(live)
            c, s, t, name = rng.randrange(1, 4), rng.choice(L), rng.choice(L), rng.choice(NAMES)
            ops.append(dict(op="addE", c=c, s=s, t=t, n=name))
            if c == 3 or not any(x[0] == c and (x[3] == name and (name or x[1:3] == (s, t))) for x in edges.values()):
                ne += 1
                edges[ne] = (c, s, t, name)
        elif k < 0.67 and ne:
            e = rng.randrange(1, ne + 1)
            ops.append(dict(op="delE", e=e))
            edges.pop(e, None)
        elif k < 0.71:
            ops.append(dict(op="addP", v=rng.choice(sorted(live))))
            np += 1
        elif k < 0.77 and ne:
            ops.append(dict(op="addPE", v=rng.choice(sorted(live)), e=rng.randrange(1, ne + 1), src=rng.random() < 0.5))
            np += 1
        elif k < 0.84 and ne and np:
            o = dict(op=rng.choice(["conn", "join"]), p=rng.randrange(1, np + 1), e=rng.randrange(1, ne + 1), src=rng.random() < 0.5)
            if o["op"] == "conn":
                o["v"] = rng.choice(sorted(live))
            ops.append(o)
        elif k < 0.87 and np:
            ops.append(dict(op="delP", p=rng.randrange(1, np + 1)))
        elif k < 0.96:
            ops.append(dict(op=rng.choice(["attr", "uniq", "reset"]), v=rng.choice(sorted(live)), k=rng.choice("ABD"), x=rng.randrange(5)))
        else:
            ops.append(dict(op="track", t=rng.randrange(1, 3), on=rng.random() < 0.7))
    return ops


def ask(rng, ops):
    return dict(ops=[dict(o, q=sorted(rng.sample(range(1, 4), rng.randrange(0, 4)))) for o in ops])


def run(c):
    K = dict(MaxOps=100, MaxV=2, MaxE=3, MaxP=0, MaxA=0, Colls="{1}", Trk="{}", EmitMode='"none"')
    INV = dict(view="View", invariants=["Incidence", "Unique", "PortsAlive"], properties=["Exact"])
    P = dict(K, MaxV=2, MaxE=1, MaxP=2)
    A = dict(K, MaxV=2, MaxE=0, MaxA=c.pick(2, 3), Trk="{1, 2}")
    exe = c.build("G01", ["G01.cpp"], sources=["hstd/ext/graph/base/graph_*.cpp", "hstd/stdlib/dod_base.cpp"] + vbuild.CORE, libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    al = []
    for k, lim in ((dict(K, MaxV=3, MaxE=2), 1000), (K, 1200), (dict(K, Colls="{1, 3}", MaxE=2), 600), (P, 800), (A, 600)):
        al += c.generate("GraphMC", c.cfg(constants=dict(k, EmitMode='"all"'), **INV), workers=1, limit=c.pick(lim, 10 * lim))
    if c.thorough:
        c.model_check("GraphMC", c.cfg(constants=dict(K, Colls="{1, 3}", MaxE=3), **INV))
    sc = [ask(c.rng, x) for x in al]
    sc += [ask(c.rng, history(c.rng, c.rng.randrange(4, c.pick(22, 60)))) for _ in range(c.pick(700, 8000))]
    recs = c.replay("GraphTrace", [exe.result()], sc)

    def mutate(r):
        for e in r["ev"]:
            if e["op"] == "delE" and e["r"]["coll"][0]["all"]:
                e["r"]["coll"][0]["all"].pop()
                return True
    c.binding_selftest("GraphTrace", recs, mutate)
