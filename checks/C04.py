import vbuild


def run(c):
    K = dict(Top=c.pick(3, 4), MaxSeg=2, EmitMode='"none"')
    c.model_check("RangeIndexMC", c.cfg(constants=K, invariants=["Exact", "Ordered", "Named"]))
    ex = c.generate("RangeIndexMC", c.cfg(constants=dict(Top=c.pick(3, 4), MaxSeg=c.pick(2, 3), EmitMode='"all"')), limit=c.pick(2500, 20000), timeout=800)
    exe = vbuild.build("C04", ["C04.cpp"], sources=["hstd/stdlib/RangeSegmentation.cpp", "hstd/stdlib/RangeTree.cpp", "hstd/system/basic_templates.cpp",
                                                    "hstd/system/string_base.cpp", "hstd/stdlib/Str.cpp", "hstd/stdlib/strutils.cpp"], libs=["-lfmt"])
    r = c.rng
    sc = []

    def add(gs, lo, hi):
        rs = [s[1:] for g in gs for s in g["segs"]]
        sc.append(dict(cfg=dict(rs=rs), ops=[dict(op="point", p=p) for p in range(lo - 2, hi + 3)]))
        cuts = [(lo, hi), (lo - 1, hi + 1), (lo + 1, hi - 1), (hi, hi), (lo, lo), (hi + 1, lo)]
        sc.append(dict(cfg=dict(gs=gs), ops=[dict(op="cut", first=a, last=b) for a, b in cuts]))
    for gs in ex:
        add(gs, 0, K["Top"])
    for _ in range(c.pick(250, 3000)):
        n = r.choice([1, 3, 8, 17, 20, 40, 60])
        lo = r.choice([0, -5, 3])
        hi = lo + r.choice([3, 6, 12, 20])

        def one():
            a, b = sorted((r.randint(lo, hi), r.randint(lo, hi)))
            return [r.choice([7, 8, 9]), a, r.choice([a, b, b])]
        base = [one() for _ in range(r.choice([1, 2, n]))]
        segs = [list(r.choice(base)) if r.random() < .6 else one() for _ in range(n)]
        ng = r.choice([1, 2, 3])
        kinds = [r.choice([1, 2, 3]) for _ in range(ng)]
        gs = [dict(kind=k, segs=[]) for k in kinds]
        for s in segs:
            r.choice(gs)["segs"].append(s)
        add(gs, lo, hi)
    recs = c.replay("RangeIndexTrace", [exe], sc)

    def mutate(x):
        e = x["ev"][0]
        for e in x["ev"]:
            if e["r"]["v"]:
                e["r"]["v"].pop()
                return True
    c.binding_selftest("RangeIndexTrace", recs, mutate)
