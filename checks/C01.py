import vbuild


def run(c):
    K = dict(MaxLen=c.pick(3, 4), Depth=100, EmitMode='"none"')
    c.model_check("SeqOpsMC", c.cfg(constants=K, view="View", invariants=["RunsOk", "CutLen", "LessOrder"], properties=["FailKeeps", "ReadKeeps"]))
    ex = c.generate("SeqOpsMC", c.cfg(constants=dict(K, EmitMode='"all"'), view="View"), workers=1, limit=c.pick(12000, 60000))
    lo = c.generate("SeqOpsMC", c.cfg(constants=dict(K, MaxLen=8, Depth=c.pick(25, 60), EmitMode='"depth"'), invariants=["EmitInv"]),
                    simulate=c.pick(250, 2500), depth=c.pick(27, 62))
    exe = vbuild.build("C01", ["C01.cpp"], sources=["hstd/system/basic_templates.cpp"], libs=["-lfmt"])
    r = c.rng
    sc = [dict(ops=x, cfg=n % 4) for n, x in enumerate(ex + lo + lo[::-1])]
    P = lambda n: dict(b=True, v=r.randrange(0, n + 2)) if r.random() < 0.5 else dict(b=False, v=r.randrange(-1, n + 1))
    for n in range(c.pick(400, 4000)):
        ops, size = [], 0
        for _ in range(r.randrange(1, 9)):
            ops.append(dict(op="push", x=r.randrange(0, 5)))
            size += 1
        for _ in range(10):
            k = r.choice(["sorted", "sortedby", "sortedcmp", "partition", "windows", "slice", "slice", "fill", "cart", "less", "splice", "map"])
            o = dict(op=k)
            if k == "partition":
                o["m"] = r.randrange(1, 5)
            elif k == "windows":
                o["k"] = r.randrange(2, 5)
            elif k in ("slice", "fill"):
                o.update(a=P(size), z=P(size), x=r.randrange(5))
            elif k in ("cart", "less", "splice"):
                o.update(l=[r.randrange(0, 5) for _ in range(r.randrange(0, 5))], x=4)
                if k == "less" and r.random() < 0.7:
                    o["l"] = [q["x"] for q in ops if q["op"] == "push"]
                    if r.random() < 0.6:
                        o["l"][r.randrange(size)] = r.randrange(5)
                    if r.random() < 0.3:
                        o["l"] = o["l"][:r.randrange(size + 1)]
            ops.append(o)
        sc.append(dict(ops=ops, cfg=n % 4))
    one = []
    for tot in range(1, c.pick(6, 8)):
        for f in range(tot):
            for n in range(1, tot - f + 1):
                for k in range(-3, tot + 2):
                    for fix in (True, False):
                        if 0 <= k:
                            one.append(dict(op="spanmove", tot=tot, sp=dict(f=f, n=n), w="start", k=k, fix=fix))
                        if not fix or 0 <= k < n:
                            one.append(dict(op="spanmove", tot=tot, sp=dict(f=f, n=n), w="end", k=k, fix=fix))
    sl = [(a, b) for a in range(-2, 4) for b in range(a, 4)]
    for a in sl:
        for b in sl:
            for x in (-3, a[0], r.randrange(-3, 6), a[1], 5):
                one.append(dict(op="sl", a=dict(f=a[0], l=a[1]), b=dict(f=b[0], l=b[1]), x=x))
    for a in range(0, 5):
        for b in range(0, 5):
            one.append(dict(op="bi", a=a, b=b))
    sc += [dict(ops=[o]) for o in one]

    def key(x, idx, why):
        e = x["ev"][idx - 1]
        if e["op"] == "sl" and max(e["a"]["f"], e["b"]["f"]) == min(e["a"]["l"], e["b"]["l"]) and e["r"]["v"]["overlap"] == []:
            # everything but the overlap must be right for the listed finding to apply
            a, b, v, q = e["a"], e["b"], e["r"]["v"], e["x"]
            i = lambda s, y: s["f"] <= y <= s["l"]
            if v == dict(contains=i(a, q), inner=i(a, b["f"]) and i(a, b["l"]), point=a["f"] == a["l"], before=q < a["f"], after=a["l"] < q,
                         narrow=[b["f"] if i(a, b["f"]) else a["f"], b["l"] if i(a, b["l"]) else a["l"]],
                         expand=[min(a["f"], q), max(a["l"], q)], expanded=[min(a["f"], b["f"]), max(a["l"], b["l"])],
                         overlap=[], items=list(range(a["f"], a["l"] + 1))):
                return "slice-overlap-single-value"
    recs = c.replay("SeqOpsTrace", [exe], sc, key=key)

    def mutate(x):
        e = x["ev"][-1]
        if isinstance(e["r"].get("q"), list) and e["r"]["q"]:
            e["r"]["q"][0] += 1
            return True
    c.binding_selftest("SeqOpsTrace", recs, mutate)
