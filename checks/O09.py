import vbuild
from O06 import SOURCES

API = ["haxorg/api/ParseContext.cpp", "haxorg/api/SemBaseApi.cpp", "hstd/ext/error_write.cpp"]


def run(c):
    exe = c.build("O09", ["O09.cpp"], sources=SOURCES + API, profile="fast", extra="-ffunction-sections -fdata-sections", libs=["-Wl,--gc-sections"] + vbuild.CORE_LIBS + ["-lcctz"], per_file=vbuild.CORE_PLAIN)
    c.model_check("ImportMC", c.cfg(constants=dict(MaxOps=c.pick(2, 3), EmitMode='"none"', Part=1), invariants=["OnceAll"], view="View"), timeout=1500)
    ex = c.generate("ImportMC", c.cfg(constants=dict(MaxOps=2, EmitMode='"all"', Part=1), view="View"), limit=c.pick(4000, 60000), timeout=600)
    for n in (8, 14, 24):
        ex += c.generate("ImportMC", c.cfg(constants=dict(MaxOps=n, EmitMode='"depth"', Part=1), invariants=["EmitInv", "Once"]), simulate=c.pick(2000, 20000), depth=n + 2, limit=c.pick(2000, 20000), timeout=600)
    recs = c.replay("ImportTrace", [exe.result()], [dict(ops=b) for b in ex])

    def mutate(x):
        for e in x["ev"]:
            if e["sorted"] and len(e["r"]["out"]) > 2:
                e["r"]["out"].pop()
                return True
    c.binding_selftest("ImportTrace", recs, mutate)
