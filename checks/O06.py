import vbuild, orgtext

SOURCES = vbuild.CORE + ["haxorg/base_lexer/*.cpp", "hstd/stdlib/dod_base.cpp", "haxorg/sem/*.cpp", "hstd/ext/textlayouter.cpp", "hstd/ext/logger.cpp", "haxorg/lexbase/*.cpp", "hstd/stdlib/Time.cpp",
                         "haxorg/exporters/ExporterReport.cpp", "haxorg/exporters/exportertree.cpp"] + [
    f"haxorg/parse/{x}.cpp" for x in ("OrgTokenizer", "OrgTokenizerReport", "OrgParser", "OrgParserUtils", "OrgParserReport", "OrgTypes", "OrgSpec")]


def ordered(d):
    """Title, file tags and how to start at most once each and before everything else; no comment
    between blocks that would run together without it, as comments are not kept."""
    ks = [b["w"] if b.get("w") == "startup" else b["k"] for b in d]
    kept = [k for k in ks if k != "remark"]
    if any(a == b for a, b in zip(kept, kept[1:])) and len(kept) < len(ks):
        return False
    head = ("title", "tags", "startup")
    n = sum(k in head for k in ks)
    return all(k in head for k in ks[:n]) and len(set(ks[:n])) == n


def run(c):
    exe = c.build("O06", ["O06.cpp"], sources=SOURCES, profile="fast", extra="-ffunction-sections -fdata-sections", libs=["-Wl,--gc-sections"] + vbuild.CORE_LIBS + ["-lcctz"], per_file=vbuild.CORE_PLAIN)
    ex = []
    for part, n, lim in ((1, 1, None), (1, 2, 1200), (1, 3, 500), (2, 1, None), (2, 2, 1500), (3, 5, 400), (4, 3, 1000)):
        ex += c.generate("OrgDocMC", c.cfg(constants=dict(MaxOps=n, EmitMode='"all"', Part=part), view="View"), limit=lim and lim * c.pick(1, 12), timeout=1500)
    ex += c.generate("OrgDocMC", c.cfg(constants=dict(MaxOps=8, EmitMode='"depth"', Part=5), invariants=["EmitInv"]), simulate=c.pick(300, 3000), depth=10, limit=c.pick(300, 3000), timeout=600)
    sc = [dict(ops=b) for b in ex if ordered(b[0]["d"])]
    recs = c.replay("OrgContentTrace", [exe.result()], sc)

    def mutate(x):
        for e in x["ev"]:
            if len(e["r"]["c2"]) > 2:
                e["r"]["c2"][2]["t"] += "x"
                return True
    c.binding_selftest("OrgContentTrace", recs, mutate)
