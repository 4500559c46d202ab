import vbuild


def run(c):
    K = dict(MaxA=c.pick(3, 4), MaxB=c.pick(4, 5), Sym="{0, 1, 2}", EmitMode='"none"')
    c.model_check("SeqDiffMC", c.cfg(constants=K, invariants=["Ends", "Correct", "Greedy"]), timeout=800)
    ex = c.generate("SeqDiffMC", c.cfg(constants=dict(MaxA=4, MaxB=c.pick(4, 5), Sym="{0, 1, 2}", EmitMode='"all"')), limit=c.pick(5000, 60000), timeout=800)
    ex += c.generate("SeqDiffMC", c.cfg(constants=dict(MaxA=5, MaxB=5, Sym="{0, 1}", EmitMode='"all"')), limit=c.pick(2500, 20000), timeout=800)
    exe = vbuild.build("C07", ["C07.cpp"], sources=vbuild.CORE + ["hstd/stdlib/diffs.cpp"], libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    r = c.rng
    ops = [dict(b[0], g=1000) for b in ex]
    for _ in range(c.pick(1500, 20000)):
        n, m, k = r.choice([0, 1, 2, 4, 8, 14]), r.choice([0, 1, 2, 4, 8, 14]), r.choice([1, 2, 3, 6])
        a = [r.randint(0, k) for _ in range(n)]
        b = [r.randint(0, k) for _ in range(m)]
        if r.random() < .5:
            b = list(a)
            for _ in range(r.choice([0, 1, 2, 3])):
                p = r.randint(0, len(b))
                if b and r.random() < .5:
                    b.pop(min(p, len(b) - 1))
                else:
                    b.insert(p, r.randint(0, k))
        ops.append(dict(op="cmp", a=a, b=b, g=r.choice([1000, 1000, 2, 3])))
    W = [list(x.encode()) for x in ("", "a", "bb", "é", "long", "→x")]

    def two(n):
        a = [r.choice(W) for _ in range(r.choice([0, 1, 2, 4, n]))]
        b = [r.choice(W) for _ in range(r.choice([0, 1, 2, 4, n]))] if r.random() < .4 else [x if r.random() < .8 else r.choice(W) for x in a if r.random() < .85]
        return a, b
    for _ in range(c.pick(900, 12000)):
        a, b = two(9)
        rep = r.random() < .4
        ops.append(dict(op="table", a=a, b=b, rep=rep, maxu=r.choice([1000, 1000, 0, 1, 2]), dl=r.random() < .3, dt=r.random() < .3,
                        minl=r.choice([-1, 0, 3, 8]), minr=r.choice([-1, 0, 3, 8]), maxl=r.choice([-1, -1, 0, 1, 2, 9]), maxr=r.choice([-1, -1, 0, 1, 2, 9])))
        a, b = two(9)
        ops.append(dict(op="pair", a=a, b=b, rep=r.random() < .5, sep=r.choice(W), maxu=r.choice([1000, 0, 1, 2])))
        L = lambda: [r.choice([97, 98, 32, 32, 10 if r.random() < .2 else 97, 127 if r.random() < .1 else 97, 0xc3]) for _ in range(r.choice([0, 1, 3, 6, 9]))]
        x = L()
        y = L() if r.random() < .5 else [z for z in x if r.random() < .9]
        ops.append(dict(op="line", a=x, b=y, sep=r.choice(W), vis=r.random() < .6))
        t = [r.choice([97, 98, 99]) for _ in range(r.choice([1, 2, 3, 5, 7]))]
        p = [z for z in t if r.random() < .5][:4] if r.random() < .8 else [r.choice([97, 98, 99]) for _ in range(r.choice([0, 1, 2, 3]))]
        p = p or t[:1]
        ops.append(dict(op="fuzzy", a=p, b=t, all=r.random() < .8, seps=[z for z in range(len(t)) if r.random() < .2], seq=r.choice([15, 0, -4]), sep=r.choice([30, 7]), first=15,
                        lead=r.choice([-5, 0]), leadmax=-15, un=r.choice([-1, 0, -3]), start=r.choice([100, 0])))
    r.shuffle(ops)
    sc = [dict(ops=ops[k:k + 8]) for k in range(0, len(ops), 8)]
    recs = c.replay("SeqDiffTrace", [exe], sc)

    def mutate(x):
        for e in x["ev"]:
            if e["op"] == "cmp" and len(e["r"]["v"]["my"]) > 1:
                e["r"]["v"]["my"].pop()
                return True
    c.binding_selftest("SeqDiffTrace", recs, mutate)
