import vbuild


def run(c):
    inv = ["Prefix", "Block", "Leaf", "Pending", "Steps", "Nearest"]
    c.model_check("NodeTreeMC", c.cfg(constants=dict(MaxOps=c.pick(7, 9), EmitMode='"none"'), invariants=inv, view="View"), timeout=800)
    ex = c.generate("NodeTreeMC", c.cfg(constants=dict(MaxOps=c.pick(6, 7), EmitMode='"all"'), view="View"), limit=c.pick(6000, 40000), timeout=800)
    ex += c.generate("NodeTreeMC", c.cfg(constants=dict(MaxOps=24, EmitMode='"depth"'), invariants=["EmitInv"]), simulate=c.pick(300, 4000), depth=26, limit=c.pick(300, 4000), timeout=300)
    exe = vbuild.build("O04", ["O04.cpp"], sources=["hstd/system/basic_templates.cpp", "hstd/system/string_base.cpp", "hstd/system/exceptions.cpp", "hstd/stdlib/strutils.cpp",
                                                    "hstd/stdlib/Str.cpp", "hstd/stdlib/ColText.cpp", "hstd/stdlib/Json.cpp", "hstd/stdlib/dod_base.cpp"], libs=["-lfmt"], per_file=vbuild.CORE_PLAIN)
    r = c.rng
    sc = []
    for b in ex:
        sc.append(dict(ops=[dict(o, k=r.randint(0, 3), v=r.randint(1, 9) if o["t"] == "tok" else 0) if "t" in o else o for o in b]))
    recs = c.replay("NodeTreeTrace", [exe], sc)

    def mutate(x):
        for e in x["ev"]:
            if len(e["r"]["dump"]) > 1:
                e["r"]["dump"][-1]["par"] += 1
                return True
    c.binding_selftest("NodeTreeTrace", recs, mutate)
