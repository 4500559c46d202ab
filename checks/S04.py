import os
from vbuild import ROOT

LISTOPS = ["left", "right", "both", "part", "index", "first", "drop", "unique", "splice", "cond"]


def run(c):
    r = c.rng
    c.model_check("SeqHelpersMC", c.cfg(constants=dict(MaxLen=c.pick(5, 7), EmitMode='"none"', Mode='"list"'), invariants=["TrimOk", "PartOk"]))
    c.model_check("SeqHelpersMC", c.cfg(spec="Fair", constants=dict(MaxLen=3, EmitMode='"none"', Mode='"walk"'), invariants=["WalkOk"], properties=["Ends"]), timeout=600)
    lists = c.generate("SeqHelpersMC", c.cfg(constants=dict(MaxLen=c.pick(4, 6), EmitMode='"all"', Mode='"list"'), invariants=["Emit"]), limit=c.pick(1200, 12000))
    graphs = c.generate("SeqHelpersMC", c.cfg(constants=dict(MaxLen=3, EmitMode='"all"', Mode='"walk"'), invariants=["Emit"]), limit=c.pick(2197, 2197))
    ops = []
    for b in lists:
        for k in LISTOPS:
            ops.append(dict(op=k, l=b["l"], p=b["p"], src=r.choice(["list", "tuple", "gen"]), keyed=r.random() < .5))
    for _ in range(c.pick(2000, 20000)):
        n = r.choice([0, 1, 5, 9, 20, 60])
        ops.append(dict(op=r.choice(LISTOPS), l=[r.randrange(r.choice([2, 4, 100])) for _ in range(n)], p=r.sample(range(5), r.randint(0, 4)), src=r.choice(["list", "tuple", "gen"]), keyed=r.random() < .5))
    for _ in range(c.pick(1500, 15000)):
        t = []
        for _ in range(r.choice([0, 1, 2, 4, 8])):
            t += r.choice([[97], [27, 91, 109], [27, 91, 49, 59, 51, 109], [27, 91, 48], [27, 91, 51, 32, 113], [27], [91], [27, 91], [27, 48], [10], [233], [27, 27, 91, 75], [27, 91, 59, 126], [127]])
        # a bare escape followed by a letter starts sequences that the helper does not promise to handle
        if not any(x == 27 and (k + 1 == len(t) or (t[k + 1] != 91 and 64 <= t[k + 1] <= 95)) for k, x in enumerate(t[:-1])):
            ops.append(dict(op="ansi", t=t))
    def kinds(e):
        res = []
        for ch in e:
            opt = ["list", "dict", "obj"] + (["slots"] if len(ch) == 2 else []) + (["leaf", "str", "none"] if not ch else [])
            res.append(r.choice(opt))
        seen = False            # there is only one None
        for k, x in enumerate(res):
            if x == "none":
                res[k] = "leaf" if seen else x
                seen = True
        return res
    def walk(e):
        return dict(op="walk", n=kinds(e), e=e, root=1, cb=r.choice(["both", "both", "pre", "post", "none"]), show=r.random() < .3)
    for g in graphs:
        ops.append(walk(g["e"]))
    for _ in range(c.pick(600, 8000)):
        n = r.choice([1, 4, 6, 10, 25])
        ops.append(walk([[r.randint(1, n) for _ in range(r.choice([0, 0, 1, 2, 2, 4]))] for _ in range(n)]))
    r.shuffle(ops)
    sc = [dict(ops=ops[k:k + 4]) for k in range(0, len(ops), 4)]
    recs = c.replay("SeqHelpersTrace", ["python3-vt", os.path.join(ROOT, "harness", "S04.py")], sc)

    def mutate(x):
        for e in x["ev"]:
            if e["op"] in ("left", "right", "both", "part") and e["r"]["x"]:
                e["r"]["x"] = e["r"]["x"][1:]
                return True
    c.binding_selftest("SeqHelpersTrace", recs, mutate)
