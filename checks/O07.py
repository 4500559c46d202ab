import vbuild
from O06 import SOURCES
from O09 import API

IMM = [f"haxorg/imm/{x}.cpp" for x in ("ImmOrg", "ImmOrgStore", "ImmOrgEdit", "ImmOrgHash", "ImmOrgBase", "ImmOrgAdapterGenerated", "ImmGetterApi")] + ["hstd/stdlib/reflection_visitor.cpp"]


def run(c):
    exe = c.build("O07", ["O07.cpp"], sources=SOURCES + API + IMM, profile="fast", extra="-ffunction-sections -fdata-sections", libs=["-Wl,--gc-sections"] + vbuild.CORE_LIBS + ["-lcctz"], per_file=vbuild.CORE_PLAIN)
    inv = ["Shared", "Faithful", "SameNode"]
    for part, n in c.pick(((1, 2), (2, 2)), ((1, 3), (2, 3))):
        c.model_check("ImmMC", c.cfg(constants=dict(MaxOps=n, EmitMode='"none"', Part=part), invariants=inv, properties=["Kept"], view="View"), timeout=3000)
    ex = []
    for part, n, lim in ((1, 2, None), (1, 3, 1500), (2, 2, 1500), (3, 2, 1500)):
        ex += c.generate("ImmMC", c.cfg(constants=dict(MaxOps=n, EmitMode='"all"', Part=part), view="View"), limit=lim and lim * c.pick(1, 12), timeout=1500)
    ex += c.generate("ImmMC", c.cfg(constants=dict(MaxOps=8, EmitMode='"depth"', Part=3), invariants=["EmitInv"] + inv), simulate=c.pick(600, 6000), depth=10, limit=c.pick(600, 6000), timeout=900)
    docs = []
    for part, n, lim in ((1, 1, None), (1, 2, 300), (2, 1, None), (2, 2, 300), (3, 5, 100), (4, 3, 200)):
        docs += c.generate("OrgDocMC", c.cfg(constants=dict(MaxOps=n, EmitMode='"all"', Part=part), view="View"), limit=lim and lim * c.pick(1, 8), timeout=1500)
    docs += c.generate("OrgDocMC", c.cfg(constants=dict(MaxOps=8, EmitMode='"depth"', Part=5), invariants=["EmitInv"]), simulate=c.pick(100, 1000), depth=10, limit=c.pick(100, 1000), timeout=600)
    docs = [d[0]["s"] for d in docs]
    edits = c.generate("ImmAnyMC", c.cfg(constants=dict(MaxOps=3), invariants=["EmitInv"]), simulate=len(docs), depth=5, limit=len(docs), timeout=600)
    ex += [[dict(op="text", s=d, c=0), dict(op="text", s=c.rng.choice(docs), c=1)] + e for d, e in zip(docs, edits)]
    recs = c.replay("ImmTrace", [exe.result()], [dict(ops=b) for b in ex])

    def mutate(x):
        for e in x["ev"]:
            if e["r"]["v"] == "ok" and len(e["r"]["tab"]) > 2:
                e["r"]["tab"][2]["l"] += 1000
                return True
    c.binding_selftest("ImmTrace", recs, mutate)
