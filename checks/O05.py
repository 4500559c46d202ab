import vbuild


def run(c):
    c.model_check("CursorMC", c.cfg(constants=dict(MaxOps=c.pick(3, 4), EmitMode='"none"'), invariants=["InRange"], properties=["Still", "Forward", "Fixed"], view="View"), timeout=800)
    ex = c.generate("CursorMC", c.cfg(constants=dict(MaxOps=4, EmitMode='"all"'), view="View"), limit=c.pick(9000, 60000), timeout=800)
    ex += c.generate("CursorMC", c.cfg(constants=dict(MaxOps=12, EmitMode='"depth"'), invariants=["EmitInv"]), simulate=c.pick(300, 6000), depth=14, limit=c.pick(300, 6000), timeout=300)
    exe = vbuild.build("O05", ["O05.cpp"], sources=["hstd/system/basic_templates.cpp", "hstd/system/string_base.cpp", "hstd/system/exceptions.cpp", "hstd/stdlib/strutils.cpp",
                                                    "hstd/stdlib/Str.cpp", "hstd/stdlib/ColText.cpp", "hstd/stdlib/Json.cpp", "hstd/stdlib/dod_base.cpp"], libs=["-lfmt"], per_file=vbuild.CORE_PLAIN)
    r = c.rng
    sc = []
    for b in ex:
        t, sel = b[0]["toks"], b[0]["sel"]
        whole = sel == list(range(1, len(t) + 1))
        sc.append(dict(cfg=dict(toks=t, sel=sel, sub=r.choice([0, 0, 1, 2]) if whole and t else 1 if not t else r.choice([1, 2])), ops=b[1:]))
    K = [1, 2, 3]
    for _ in range(c.pick(800, 8000)):
        n = r.choice([0, 1, 3, 6, 10, 16])
        t = [r.choice(K) for _ in range(n)]
        whole = r.random() < .4
        sel = list(range(1, n + 1)) if whole else sorted(r.sample(range(1, n + 1), r.randint(0, n)))
        S = lambda: r.sample(K, r.choice([0, 1, 1, 2]))
        ops = []
        for _ in range(r.choice([4, 10, 20])):
            k = r.choice(["next", "next", "has", "get", "tok", "at", "atset", "atseq", "can", "pop", "popk", "popset", "popn", "skip", "try", "expect", "find", "ahead", "aheadset", "findpast", "inside",
                          "peek", "goto", "rest"])
            if k == "goto" and not t:
                continue
            o = dict(op=k, n=r.randint(1, len(t)) if k == "goto" else r.choice([0, 1, 1, 1, 2, 3, 9]) if k in ("popn", "tok") else r.choice([0, 1, 1, 1, 2, -1, -3, 5]), k=r.choice(K), s=S(),
                     q=[r.choice(K) for _ in range(r.choice([0, 1, 2]))])
            if k == "inside":
                o["s"], o["q"] = r.choice([([1], [3]), ([1], [2]), ([1, 2], [3]), ([2], [1, 3])])
            ops.append(o)
        sc.append(dict(cfg=dict(toks=t, sel=sel, sub=1 if not sel else r.choice([1, 2]) if not whole else 0), ops=ops))
    recs = c.replay("CursorTrace", [exe], sc)

    def mutate(x):
        for e in x["ev"]:
            if e["r"]["pos"] > 0:
                e["r"]["pos"] += 1
                return True
    c.binding_selftest("CursorTrace", recs, mutate)
