import vbuild, orgtext

SOURCES = vbuild.CORE + ["haxorg/base_lexer/*.cpp", "haxorg/sem/SemOrgEnums.cpp", "hstd/stdlib/dod_base.cpp", "haxorg/sem/SemOrgBaseSharedTypes.cpp"] + [
    f"haxorg/parse/{x}.cpp" for x in ("OrgTokenizer", "OrgTokenizerReport", "OrgParser", "OrgParserUtils", "OrgParserReport", "OrgTypes", "OrgSpec")]


def run(c):
    exe = c.build("O03", ["O03.cpp"], sources=SOURCES, libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    ex = []
    for part, n, lim in ((1, 1, None), (1, 2, 1500), (1, 3, 1000), (2, 1, None), (2, 2, 1500), (3, 5, 800), (4, 3, 1200)):
        inv = ["WellFormed"] + (["SubtreesNest"] if part in (3, 4) else [])
        ex += c.generate("OrgDocMC", c.cfg(constants=dict(MaxOps=n, EmitMode='"all"', Part=part), invariants=inv, view="View"), limit=lim and lim * c.pick(1, 12), timeout=1500)
    ex += c.generate("OrgDocMC", c.cfg(constants=dict(MaxOps=8, EmitMode='"depth"', Part=5), invariants=["EmitInv"]), simulate=c.pick(300, 3000), depth=10, limit=c.pick(300, 3000), timeout=600)
    sc = [dict(ops=b) for b in ex] + [dict(ops=[dict(op="lex", t=t)]) for t in orgtext.texts(c, c.pick(2500, 25000)) + orgtext.documents(c, c.pick(2500, 25000))]
    recs = c.replay("OrgDocTrace", [exe.result()], sc)

    def mutate(x):
        for e in x["ev"]:
            if len(e["r"]["tree"]) > 2:
                e["r"]["tree"][1]["x"] += 1
                return True
    c.binding_selftest("OrgDocTrace", recs, mutate)
