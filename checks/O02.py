import os, vbuild, orgtext

SOURCES = vbuild.CORE + ["haxorg/base_lexer/*.cpp", "haxorg/sem/SemOrgEnums.cpp", "hstd/stdlib/dod_base.cpp", "haxorg/parse/OrgTokenizer.cpp", "haxorg/parse/OrgTokenizerReport.cpp"]


def run(c):
    exe = c.build("O02", ["O02.cpp"], sources=SOURCES, libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    for part, n in ((1, 3), (2, 3), (3, 3)) if c.tier == "quick" else ((1, 4), (2, 4), (3, 4), (4, 2)):
        c.model_check("OrgTokensMC", c.cfg(constants=dict(MaxOps=n, EmitMode='"none"', Part=part), invariants=["Keeps"], view="View"), timeout=3000)
    ex = []
    for part, n in ((1, 3), (2, 3), (3, 3)):
        ex += c.generate("OrgTokensMC", c.cfg(constants=dict(MaxOps=n, EmitMode='"all"', Part=part), view="View"), limit=c.pick(1500, 20000), timeout=800)
    ex += c.generate("OrgTokensMC", c.cfg(constants=dict(MaxOps=8, EmitMode='"depth"', Part=4), invariants=["EmitInv"]), simulate=c.pick(600, 6000), depth=10, limit=c.pick(600, 6000), timeout=300)
    sc = [dict(ops=b) for b in ex] + [dict(ops=[dict(op="lex", t=t)]) for t in orgtext.texts(c, c.pick(2000, 20000)) + orgtext.documents(c, c.pick(2500, 25000))]
    recs = c.replay("OrgTokensTrace", [exe.result()], sc)

    def mutate(x):
        for e in x["ev"]:
            if e["r"]["out"]:
                e["r"]["out"][-1]["t"] = e["r"]["out"][-1]["t"] + [120]
                return True
    c.binding_selftest("OrgTokensTrace", recs, mutate)
