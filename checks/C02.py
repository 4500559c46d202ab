import vbuild

DOM = dict(char=list(range(256)), u8=list(range(256)), i8=list(range(-128, 128)), flag=list(range(3, 10)), neg=list(range(-4, 2)),
           gap=[1, 4, 5, 20, 300], u16=sorted(set(list(range(0, 65536, 997)) + [65535, 255, 256])), hash=list(range(-4, 12)), hashs=list(range(0, 12)))


def run(c):
    N = c.pick(3, 4)
    K = dict(N=N, Depth=100, EmitMode='"none"', Finite="TRUE")
    c.model_check("SetAlgebraMC", c.cfg(constants=K, view="View", invariants=["InDomain", "Laws"]))
    ex = c.generate("SetAlgebraMC", c.cfg(constants=dict(K, EmitMode='"all"'), view="View"), limit=c.pick(1600, 12000))
    lo = c.generate("SetAlgebraMC", c.cfg(constants=dict(K, N=5, Depth=c.pick(20, 40), EmitMode='"depth"'), invariants=["EmitInv"]),
                    simulate=c.pick(200, 1500), depth=c.pick(22, 42))
    exe = vbuild.build("C02", ["C02.cpp"], sources=["hstd/system/basic_templates.cpp"], libs=["-lfmt"])
    r = c.rng
    sc = []

    def embed(beh, kind):
        """Map the abstract values into the concrete domain, keeping their order."""
        dom = DOM[kind]
        want = 5
        if len(dom) <= want:
            pts = dom
        elif kind == "gap":
            pts = dom
        else:
            edge = [dom[0], dom[1], dom[-2], dom[-1], 127, 128, 63, 64, 0, -1, 31, 32]
            pts = sorted(set([x for x in r.sample(edge, 4) if x in dom] + r.sample(dom, want)))
            while len(pts) > want:
                pts.remove(r.choice(pts))
        finite = not kind.startswith("hash")
        ops = []
        for o in beh:
            if not finite and o["op"] in ("inclr", "exclr", "compl", "build"):
                continue
            if kind == "u16" and o["op"] in ("inclr", "exclr", "compl", "build"):
                continue
            ops.append({k: (pts[v] if k in ("x", "lo", "hi") else v) for k, v in o.items()})
        if ops:
            sc.append(dict(ops=ops, cfg=dict(kind=kind, dom=dom)))
    kinds = list(DOM)
    wide = ("char", "u8", "i8")
    for n, b in enumerate(ex):
        k = kinds[n % len(kinds)]
        if k in wide and n % 4:
            k = ("flag", "neg", "gap", "hash")[n % 4]
        embed(b, k)
    for n, b in enumerate(lo):
        embed(b[:8] if kinds[n % len(kinds)] in wide else b, kinds[n % len(kinds)])
    for kind in wide + ("flag", "neg", "gap"):
        dom = DOM[kind]
        embed([dict(op="incl", x=0), dict(op="compl"), dict(op="compl"), dict(op="copy"), dict(op="cmp"), dict(op="inclr", lo=0, hi=4), dict(op="compl")], kind)
        # every value on its own
        step = 16 if kind in wide else 5
        for a in range(0, len(dom), step):
            ops = []
            for x in dom[a:a + step]:
                ops += [dict(op="incl", x=x), dict(op="has", x=x)]
            ops += [dict(op="compl")] + [dict(op="excl", x=x) for x in dom[a + 1:a + step:3]]
            sc.append(dict(ops=ops, cfg=dict(kind=kind, dom=dom)))
        for _ in range(c.pick(20, 200)):
            x, y = sorted(r.sample(dom, 2))
            sc.append(dict(ops=[dict(op="inclr", lo=x, hi=y), dict(op="copy"), dict(op="inclr", lo=dom[0], hi=dom[-1]), dict(op="cmp"),
                                dict(op="minus"), dict(op="exclr", lo=x, hi=dom[-1])], cfg=dict(kind=kind, dom=dom)))
    recs = c.replay("SetAlgebraTrace", [exe], sc)

    def mutate(x):
        e = x["ev"][-1]
        if e["r"]["a"]:
            e["r"]["a"].pop()
            return True
    c.binding_selftest("SetAlgebraTrace", recs, mutate)
