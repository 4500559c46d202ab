import vbuild


def run(c):
    K = dict(MaxN=5, MaxSkip=6, Containers='{"vector", "string", "deque", "list"}', Hows='{"plain", "fl", "lf"}', Depth=100, EmitMode='"none"')
    c.model_check("Enumerate", c.cfg(constants=dict(K, MaxN=c.pick(5, 9), MaxSkip=c.pick(6, 10)), view="View", invariants=["WalkExact", "WalkPrefix", "MarksExact"]))
    exe = vbuild.build("V02", ["V02.cpp"])
    # every transition of the bounded view space; a walk through each view as well
    short = c.generate("Enumerate", c.cfg(constants=dict(K, Depth=12, EmitMode='"all"', MaxN=c.pick(4, 6), MaxSkip=c.pick(5, 7)), view="View"), workers=1, timeout=800)
    sc = [dict(ops=b) for b in short]
    for n in range(0, c.pick(6, 12)):
        for a in range(0, n + 2):
            for b in range(0, n + 2):
                for cont in ("vector", "string", "deque", "list"):
                    ops = [dict(op="open", n=n, a=a, b=b, c=cont, how=c.rng.choice(["fl", "lf", "plain"]))]
                    for _ in range(max(0, n - a - b)):
                        ops += [dict(op="more"), dict(op="cur"), dict(op="step")]
                    ops += [dict(op="more"), dict(op="all"), dict(op="restart"), dict(op="more")]
                    sc.append(dict(ops=ops))
    recs = c.replay("EnumerateTrace", [exe], sc, constants=K)

    def mutate(r):
        for e in r["ev"]:
            if e["op"] == "cur":
                e["r"]["c"]["last"] = not e["r"]["c"]["last"]
                return True
    c.binding_selftest("EnumerateTrace", recs, mutate, constants=K)
