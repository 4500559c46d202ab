import vbuild


def rand_prog(rng, depth):
    body = []
    for _ in range(rng.randrange(0, 5)):
        k = rng.random()
        if depth and k < 0.35:
            body.append(dict(k=rng.choice(["scope", "try", "call", "noexc"]), b=rand_prog(rng, depth - 1)))
        elif k < 0.75:
            body.append(dict(k="guard", b=[]))
        else:
            body.append(dict(k=rng.choice(["ev", "ev", "ret", "throw"]), b=[]))
    return body


def run(c):
    L = dict(Len1=2, Len2=c.pick(2, 2))
    c.model_check("ScopeExitMC", c.cfg(constants=dict(Len1=c.pick(2, 3), Len2=2), invariants=["Exact", "PendingOk"]))
    progs = c.generate("ScopeExitMC", c.cfg(constants=L, invariants=["EmitProg"]), workers=1)
    K = dict(MaxObj=3, MaxU=2, Depth=100, EmitMode='"none"', Which='"shared"')
    for which in ('"shared"', '"unique"'):
        c.model_check("OwnershipMC", c.cfg(constants=dict(K, Which=which, MaxObj=c.pick(2, 3), MaxU=c.pick(3, 4)), view="View", invariants=["OneOwner"], properties=["FailedCastKeeps", "NoTransferLoss"]))
    sh = c.generate("OwnershipMC", c.cfg(constants=dict(K, MaxObj=c.pick(1, 2), EmitMode='"all"'), view="View"), workers=1, limit=c.pick(4000, 40000))
    un = c.generate("OwnershipMC", c.cfg(constants=dict(K, Which='"unique"', MaxU=2, EmitMode='"all"'), view="View"), workers=1, limit=6000)
    lo = c.generate("OwnershipMC", c.cfg(constants=dict(K, Which='"all"', MaxObj=30, MaxU=30, Depth=c.pick(25, 60), EmitMode='"depth"'), invariants=["EmitInv"]),
                    simulate=c.pick(200, 1500), depth=c.pick(27, 62))
    exe = vbuild.build("V04", ["V04.cpp"], sources=["hstd/stdlib/Ptrs.cpp"])
    sc = [dict(ops=[dict(op="prog", b=p)]) for p in progs]
    sc += [dict(ops=[dict(op="prog", b=rand_prog(c.rng, 4))]) for _ in range(c.pick(1500, 20000))]
    sc += [dict(ops=x) for x in sh + un + un[1:] + un[2:] + lo]
    for n, x in enumerate(sc):
        x["cfg"] = n % 3
    recs = c.replay("V04Trace", [exe], sc)

    def mutate(r):
        e = r["ev"][-1]
        if e["op"] == "prog" and len(e["r"]["v"]) > 4:
            e["r"]["v"][0], e["r"]["v"][1] = e["r"]["v"][1], e["r"]["v"][0] + 1
            return True
        if e["op"] == "cast1":
            e["r"]["dead"] += 1
            return True
    c.binding_selftest("V04Trace", recs, mutate)
