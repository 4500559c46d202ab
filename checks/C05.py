import vbuild

# name: bits, mask bits
IDS = dict(a=(8, 2), b=(64, 16), c=(8, 0), d=(64, 0), e=(16, 4))


def run(c):
    K = dict(MaxLen=c.pick(2, 3), Depth=100, EmitMode='"none"')
    c.model_check("StoresMC", c.cfg(constants=K, view="View", invariants=["Distinct"], properties=["Stable"]))
    ex = c.generate("StoresMC", c.cfg(constants=dict(K, EmitMode='"all"'), view="View"), limit=c.pick(6000, 30000))
    lo = c.generate("StoresMC", c.cfg(constants=dict(K, MaxLen=6, Depth=c.pick(30, 80), EmitMode='"depth"'), invariants=["EmitInv"]),
                    simulate=c.pick(200, 1500), depth=c.pick(32, 82))
    exe = vbuild.build("C05", ["C05.cpp"], sources=["hstd/system/basic_templates.cpp", "hstd/system/string_base.cpp", "hstd/stdlib/dod_base.cpp",
                                                    "hstd/stdlib/strutils.cpp", "hstd/stdlib/Str.cpp"], libs=["-lfmt"])
    r = c.rng
    one = []
    for t, (bits, mb) in IDS.items():
        top, mtop = 2 ** (bits - mb) - 1, 2 ** mb - 1
        lim = min(top, 2 ** 31 - 1)  # TLC integers; unmasked values near 2^64 are not exercised
        us = [0, 1, 2, 3, 62, 63, 64, 127, 128, 254, 255, top - 1, top]
        us = sorted({u for u in us if 0 <= u <= lim} | ({top, top - 1} if top == lim else set()))
        tt = min(top, 2 ** 31 - 1)
        for u in us:
            for m in sorted({0, 1, mtop // 2, mtop} & set(range(mtop + 1))):
                b = dict(t=t, u=u, m=m, top=tt, mtop=mtop)
                for op in ("inc", "posti", "dec", "postd", "facts"):
                    one.append(dict(b, op=op))
                for k in (-300, -2, -1, 0, 1, 2, 60, 255, 400):
                    one.append(dict(b, op="add", k=k))
                for k in sorted({0, 1, mtop, mtop + 1}):
                    if mb:
                        one.append(dict(b, op="mask", k=k))
                for k in (0, 1, min(lim, 50)):
                    one.append(dict(b, op="base", k=k))
                for u2 in us:
                    one.append(dict(b, op="cmp", u2=u2, m2=r.choice([m, 0, mtop])))
    sc = [dict(ops=x) for x in ex + lo] + [dict(ops=[o]) for o in one]
    recs = c.replay("StoresTrace", [exe], sc)

    def mutate(x):
        e = x["ev"][-1]
        if e["r"].get("a"):
            e["r"]["a"][0] += 1
            return True
    c.binding_selftest("StoresTrace", recs, mutate)
