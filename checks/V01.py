import vbuild


def run(c):
    K = dict(NSlots=3, NKinds=4, Vals="{0, 1}", MaxObj=2, Depth=4, EmitMode='"none"')
    c.model_check("DynVariant", c.cfg(constants=dict(K, MaxObj=c.pick(2, 3), Depth=100), view="View", invariants=["OneAlternative"],
                                      properties=["KindFixed", "OtherSlotsKept"]))
    exe = vbuild.build("V01", ["V01.cpp"], libs=["-lfmt"])
    short = c.generate("DynVariant", c.cfg(constants=dict(K, NKinds=c.pick(3, 4), MaxObj=2, NSlots=2, Vals="{0}", Depth=100, EmitMode='"all"'), view="View"), workers=1)
    long = c.generate("DynVariant", c.cfg(constants=dict(K, MaxObj=40, Depth=c.pick(25, 60), EmitMode='"depth"', Vals="{0, 1, 2}"), invariants=["EmitInv"]),
                      simulate=c.pick(150, 1000), depth=c.pick(27, 62))
    sc = [dict(ops=b, cfg=1 + (n % 2)) for n, b in enumerate(short)]
    sc += [dict(ops=b, cfg=1 + (n % 2)) for n, b in enumerate(long)]
    if c.thorough:
        sc += [dict(ops=b, cfg=2 - (n % 2)) for n, b in enumerate(short)]
    recs = c.replay("DynVariantTrace", [exe], sc, constants=K)

    def mutate(r):
        for e in r["ev"]:
            if e["op"] == "copy" and e["r"]["slots"][0]["full"]:
                e["r"]["slots"][0]["visit"]["calls"] = 2
                return True
    c.binding_selftest("DynVariantTrace", recs, mutate, constants=K)
