import vbuild


def run(c):
    exe = vbuild.build("C03", ["C03.cpp"], sources=["hstd/system/basic_templates.cpp"], libs=["-lfmt"])
    sc = []
    for kind in ("map", "one", "many", "stable"):
        K = dict(NK=3, NV=c.pick(2, 3), Depth=100, EmitMode='"none"', Kind=f'"{kind}"')
        c.model_check("MapsMC", c.cfg(constants=K, view="View", invariants=["OneValue", "OneToOne", "Both"], properties=["ReadKeeps"]))
        ex = c.generate("MapsMC", c.cfg(constants=dict(K, EmitMode='"all"'), view="View"), limit=c.pick(1500, 8000))
        lo = c.generate("MapsMC", c.cfg(constants=dict(K, NK=5, NV=3, Depth=c.pick(30, 80), EmitMode='"depth"'), invariants=["EmitInv"]),
                        simulate=c.pick(100, 600), depth=c.pick(32, 82))
        sc += [dict(ops=b, cfg=dict(kind=kind, t=n % 5)) for n, b in enumerate(ex + lo)]
        # every value type sees the sequences that start with the default value
        sc += [dict(ops=b, cfg=dict(kind=kind, t=(n + 1) % 5)) for n, b in enumerate(ex) if len(b) > 1 and b[0].get("y", 1) == 0][:c.pick(600, 4000)]
        if kind == "many":
            ok = {"unique", "get", "at", "has", "erase"}
            for n, b in enumerate(lo):
                pts = c.rng.sample([0, 1, 5, 127, 128, 254, 255, 97], 6)
                ops = [dict(o, x=pts[o["x"]] if n % 3 < 2 else o["x"], **({"y": o["y"] + 1} if "y" in o else {})) for o in b if o["op"] in ok]
                if ops:
                    sc.append(dict(ops=ops, cfg=dict(kind="arr", t=n % 3)))
    recs = c.replay("MapsTrace", [exe], sc)

    def mutate(x):
        e = x["ev"][-1]
        if e["r"]["m"]:
            e["r"]["m"][0][1] += 1
            return True
    c.binding_selftest("MapsTrace", recs, mutate)
