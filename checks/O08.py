import vbuild


def run(c):
    c.model_check("RegistryMC", c.cfg(constants=dict(MaxOps=c.pick(5, 7), EmitMode='"none"'), invariants=["OnePath"], properties=["Stable", "Refused"], view="View"), timeout=800)
    ex = c.generate("RegistryMC", c.cfg(constants=dict(MaxOps=5, EmitMode='"all"'), view="View"), limit=c.pick(9000, 60000), timeout=800)
    ex += c.generate("RegistryMC", c.cfg(constants=dict(MaxOps=14, EmitMode='"depth"'), invariants=["EmitInv"]), simulate=c.pick(400, 6000), depth=16, limit=c.pick(400, 6000), timeout=300)
    exe = vbuild.build("O08", ["O08.cpp"], sources=vbuild.CORE + ["haxorg/lexbase/SourceManager.cpp", "hstd/stdlib/dod_base.cpp"], libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    r = c.rng
    sc = [dict(ops=b) for b in ex]
    P = ["", "a", "A", "a/", "/a", "a/b", "./a", "a ", "\n", "ü", "aa", "b", "/tmp/x.org", "/tmp/X.org"]
    T = ["", " ", "x", "x\n", "* head\n", "\r\n", "ü"]
    for _ in range(c.pick(400, 4000)):
        sc.append(dict(ops=[r.choice([dict(op="add", p=r.choice(P), t=r.choice(T)), dict(op="add", p=r.choice(P), t=r.choice(T)), dict(op=r.choice(["id", "text"]), p=r.choice(P)),
                                      dict(op=r.choice(["path", "content"]), n=r.randint(0, 15))]) for _ in range(30)]))
    # a long history: identifiers stay stable while the storage grows
    for n in c.pick([300], [300, 1200]):
        ops = [dict(op="add", p="f%d" % k, t="t%d" % (k % 7)) for k in range(n)]
        sc.append(dict(ops=ops[: n // 3] + [dict(op="add", p="f0", t="other")] + ops[n // 3:] + ops[:5] + [dict(op="text", p="f%d" % k) for k in (0, 1, n - 1, n)]))
    recs = c.replay("RegistryTrace", [exe], sc)

    def mutate(x):
        for e in x["ev"]:
            if e["r"]["all"]:
                e["r"]["all"][0][1] += "z"
                return True
    c.binding_selftest("RegistryTrace", recs, mutate)
