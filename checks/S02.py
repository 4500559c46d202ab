import os
from vbuild import ROOT


def node(k, n, args=0, b=(), x=0, catch=True):
    return dict(k=k, n=n, args=args, b=list(b), x=x, c=catch)


def program(r, t, counter, depth=0, last=False):
    res, open_ = [], 0
    for _ in range(r.randint(1, 4 if depth else 5)):
        counter[0] += 1
        n = f"i{t}{counter[0]}"
        y = r.random()
        if y < .45 and depth < 3:
            res.append(node("scope", n, r.randrange(3), program(r, t, counter, depth + 1), r.choice([0, 0, 0, 1, 2]), r.random() < .5))
        elif y < .6 and depth == 0:
            res.append(node("push", n, r.randrange(3)))
            open_ += 1
        elif y < .75 and depth == 0 and (open_ or last):
            res.append(node("pop", n))
            open_ = max(0, open_ - 1)
        elif y < .85:
            res.append(node("meta", n, r.randrange(2)))
        elif y < .92:
            res.append(node("index", n, r.randrange(2)))
        else:
            res.append(node("add", n, r.randrange(4)))
    if depth == 0 and not last:
        # a scope left by an exception skips the rest: only balanced tails are used
        if any(o["k"] == "push" for o in res):
            for o in res:
                o["c"] = True
            def calm(b):
                for o in b:
                    o["x"] = 0 if o["x"] == 1 else o["x"]
                    calm(o["b"])
            calm(res)
        for _ in range(open_):
            counter[0] += 1
            res.append(node("pop", f"i{t}{counter[0]}"))
    return res


def plan(r, nt):
    kind = r.randrange(4)
    n = 400
    if kind == 0:
        return [r.randrange(nt) for _ in range(n)]
    if kind == 1:                    # long stretches of one thread
        res = []
        while len(res) < n:
            res += [r.randrange(nt)] * r.choice([1, 2, 5, 12])
        return res
    if kind == 2:                    # strict rotation
        return [k % nt for k in range(n)]
    return [0 if r.random() < .9 else r.randrange(nt) for _ in range(n)]


def run(c):
    r = c.rng
    c.model_check("TracerMC", c.cfg(constants=dict(NT=2, MaxCalls=c.pick(2, 3), EmitMode='"none"'), view="View", invariants=["Accepted", "Noticed", "Exclusive", "Durations"]), timeout=c.pick(300, 3600))
    gen = c.generate("TracerMC", c.cfg(constants=dict(NT=2, MaxCalls=4, EmitMode='"depth"'), invariants=["EmitInv"]), simulate=c.pick(500, 4000), depth=60, limit=c.pick(500, 4000))
    gen += c.generate("TracerMC", c.cfg(constants=dict(NT=3, MaxCalls=3, EmitMode='"depth"'), invariants=["EmitInv"]), simulate=c.pick(500, 4000), depth=70, limit=c.pick(500, 4000))
    sc = []
    for k, b in enumerate(gen):
        nt = max(x["th"] for x in b["calls"])
        progs = [[node(x["k"], f"i{t}{j}", j % 2 if x["k"] == "meta" else j % 3) for j, x in enumerate(b["calls"]) if x["th"] == t] for t in range(1, nt + 1)]
        # one step of the model is a few lines of code
        sc.append(dict(ops=[dict(op="threads", prog=progs, plan=[x for x in b["plan"] for _ in range(r.choice([1, 2, 4]))], back=[]), dict(op="export", meta=k)],
                       cfg=dict(glob=bool(k % 2), fine=k % 7 == 0)))
    for k in range(c.pick(900, 8000)):
        ops = []
        phases = r.choice([1, 1, 2, 3])
        counter = [10]
        for ph in range(phases):
            nt = r.choice([1, 2, 2, 3, 4])
            ops.append(dict(op="threads", prog=[program(r, t, counter, last=ph == phases - 1) for t in range(1, nt + 1)], plan=plan(r, nt), back=[r.randint(1, 20) for _ in range(r.choice([0, 0, 0, 1, 2]))]))
            if r.random() < .2:
                ops.append(dict(op="restart"))
            if r.random() < .4:
                ops.append(dict(op="export", meta=ph))
        sc.append(dict(ops=ops, cfg=dict(glob=r.random() < .5, fine=r.random() < .1)))
    recs = c.replay("TracerTrace", ["python3-vt", os.path.join(ROOT, "harness", "S02.py")], sc)

    def mutate(x):
        for e in x["ev"]:
            if e["op"] == "threads" and e["r"]["log"] and e["r"]["log"][-1]["th"]:
                e["r"]["log"][-1]["th"] += 1
                return True
    c.binding_selftest("TracerTrace", recs, mutate)
