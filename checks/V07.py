import itertools
import vbuild


def run(c):
    K = dict(PLen=c.pick(2, 3), Depth=100, EmitMode='"none"')
    c.model_check("LazyMC", c.cfg(constants=K, view="View", invariants=["AtYield"], properties=["LazyBody"]))
    short = c.generate("LazyMC", c.cfg(constants=dict(K, PLen=c.pick(1, 2), EmitMode='"all"'), view="View"), workers=1, limit=c.pick(6000, 60000))
    lo = c.generate("LazyMC", c.cfg(constants=dict(K, PLen=4, Depth=c.pick(20, 50), EmitMode='"depth"'), invariants=["EmitInv"]),
                    simulate=c.pick(400, 4000), depth=c.pick(22, 52))
    exe = vbuild.build("V07", ["V07.cpp"], sources=["hstd/system/basic_templates.cpp"], libs=["-lfmt"])
    r = c.rng
    ops = []
    kinds = ["opt", "get", "dir", "sub"]
    for n in range(0, 4):
        for on in itertools.product([True, False], repeat=n):
            for _ in range(c.pick(6, 30)):
                ops.append(dict(op="chain", c=[dict(k=r.choice(kinds), on=o, v=r.randrange(-9, 10)) for o in on]))
    for on in (True, False):
        for t in ("", "x", "a {} b"):
            ops.append(dict(op="pred", on=on, t=list(t.encode())))
        for w in ("raw", "unique", "shared", "weak", "lock", "cast", "ccast", "scast", "noexc", "check", "checkfmt", "filter", "field", "getter"):
            ops.append(dict(op="live", on=on, w=w))
    for w in ("init", "ctx"):
        for l in (0, 7, 123456, -1):
            ops.append(dict(op="msg", w=w, m=list(b"what went {} wrong"), f=list(b"dir/f.cpp"), fn=list(b"fun"), l=list(str(l).encode())))
    sc = [dict(ops=[o]) for o in ops] + [dict(ops=x) for x in short + lo]
    recs = c.replay("LazyTrace", [exe], sc)

    def mutate(x):
        e = x["ev"][-1]
        if e["op"] == "begin":
            e["r"]["log"].append(1)
            return True
        if e["op"] == "chain" and e["c"]:
            e["r"]["v"]["ev"].append(9)
            return True
    c.binding_selftest("LazyTrace", recs, mutate)
