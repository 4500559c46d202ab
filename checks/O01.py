import orgtext, vbuild


def run(c):
    exe = c.build("O01", ["O01.cpp"], sources=vbuild.CORE + ["haxorg/base_lexer/*.cpp", "haxorg/sem/SemOrgEnums.cpp", "hstd/stdlib/dod_base.cpp"], libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    for part, n in ((1, 2), (2, 2)) if c.tier == "quick" else ((1, 3), (2, 3)):
        c.model_check("BaseLexerMC", c.cfg(constants=dict(MaxOps=n, EmitMode='"none"', Part=part), invariants=["KeepsText", "KeepsPlace"], view="View"), timeout=2400)
    ex = c.generate("BaseLexerMC", c.cfg(constants=dict(MaxOps=2, EmitMode='"all"', Part=3), view="View"), limit=c.pick(6000, 60000), timeout=800)
    ex += c.generate("BaseLexerMC", c.cfg(constants=dict(MaxOps=9, EmitMode='"depth"', Part=3), invariants=["EmitInv"]), simulate=c.pick(500, 5000), depth=11, limit=c.pick(500, 5000), timeout=300)
    sc = [dict(ops=b) for b in ex] + [dict(ops=[dict(op="lex", t=t)]) for t in orgtext.texts(c, c.pick(2500, 25000))]
    recs = c.replay("BaseLexerTrace", [exe.result()], sc)

    def mutate(x):
        for e in x["ev"]:
            if e["r"]["toks"]:
                e["r"]["toks"][-1]["t"] = e["r"]["toks"][-1]["t"] + [120]
                return True
    c.binding_selftest("BaseLexerTrace", recs, mutate)
