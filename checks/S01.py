import os
from vbuild import ROOT

G1 = dict(n=1, deps=[[]], calls=[[]], kind=["none"])
KINDS = ["none", "io", "tmp", "tmpc", "tmpo", "only", "onlys"]


def history(r, n):
    deps = [sorted(r.sample(range(1, t), r.randint(0, min(3, t - 1)))) for t in range(1, n + 1)]
    g = dict(n=n, deps=deps, calls=[[] for _ in range(n)], kind=[r.choice(KINDS) for _ in range(n)])
    nested = r.random() < .3
    if nested:
        for t in range(2, n + 1):
            if r.random() < .4:
                # what a body runs by itself does not touch what the task declares to read
                g["calls"][t - 1] = [r.randrange(1, t)]
    ops = []
    kept = list(range(1, n + 1))
    for _ in range(r.randint(3, 25)):
        x = r.random()
        if x < .55:
            cfg = dict(dep=True, unch=False, x=0)
            if not nested:
                y = r.random()
                if y < .1:
                    cfg["unch"] = True
                elif y < .2:
                    cfg["dep"] = False
                if r.random() < .25:
                    cfg["x"] = 1
            fail = [[t, r.random() < .5] for t in kept if r.random() < .1] if r.random() < .35 else []
            ops.append(dict(op="run", t=r.choice(kept + [n] * n), cfg=cfg, fail=fail))
        elif x < .7:
            ops.append(dict(op="touch", what="session", t=1))
        else:
            ops.append(dict(op="touch", what=r.choice(["src", "src", "src2", "nosrc2", "noout", "nostamp", "salt"]), t=r.choice(kept)))
    return dict(ops=ops, cfg=dict(g=g, style=r.randrange(40)))


def tree(r, d, top=True, sub=False):
    # a list directly in the list given by the caller is not allowed by the declared types
    k = r.choice(["str", "path"] if d == 0 else ["str", "path", "gen", "call", "map"] + ([] if sub else ["list"]))
    if k in ("str", "path"):
        return dict(k=k, v=r.choice(["a", "b/c", "/d/e.txt", "x y"]), c=[])
    return dict(k=k, v="", c=[tree(r, d - 1, False, top and k == "list") for _ in range(r.randint(0, 3))])


ALL = '{"none", "io", "tmpc", "tmpo", "only"}'
FEW = '{"io", "tmpc", "none"}'


def run(c):
    r = c.rng
    inv = ["Agrees", "UpToDate", "Honest", "Once"]
    c.model_check("WorkflowMC", c.cfg(constants=dict(N=3, Depth=c.pick(3, 4), EmitMode='"none"', Free=c.pick("FALSE", "TRUE"), MaxClock=20, KindSet=c.pick(FEW, ALL)), view="View", invariants=inv), timeout=c.pick(300, 3600))
    sc = []
    ex = c.generate("WorkflowMC", c.cfg(constants=dict(N=3, Depth=3, EmitMode='"all"', Free="FALSE", MaxClock=20, KindSet='{"io", "tmpo"}'), view="View", invariants=["Emit"]), limit=c.pick(4000, 40000))
    lo = c.generate("WorkflowMC", c.cfg(constants=dict(N=3, Depth=10, EmitMode='"depth"', Free="TRUE", MaxClock=30, KindSet=ALL), invariants=["EmitInv"]), simulate=c.pick(1500, 10000), depth=60, limit=c.pick(1500, 10000))
    for k, b in enumerate(ex + lo):
        sc.append(dict(ops=b["ops"], cfg=dict(g=b["g"], style=k % 40)))
    sc += [history(r, r.choice([2, 3, 4, 5, 8])) for _ in range(c.pick(1200, 20000))]
    need = []
    T = [0, 1, 2]
    for i1 in T:
        for i2 in T:
            for o1 in T:
                for o2 in T:
                    for st in ([], [0, 0], [1, 1], [1, 2], [2, 1], [2, 2]):
                        outs = [o1, o2]
                        if i1 == i2 == 0 and not (0 in outs or (st and st[0] == 0)):
                            continue
                        need.append(dict(op="need", ins=[i1, i2], outs=outs, stamp=st, content=1))
    for st in ([0, 0], [1, 1], [1, 2]):
        need.append(dict(op="need", ins=[], outs=[], stamp=st, content=1))
        need += [dict(op="need", ins=[i], outs=[], stamp=st, content=1) for i in (1, 2)]
    ops = need + [dict(op="paths", p=tree(r, 3)) for _ in range(c.pick(400, 4000))]
    sc += [dict(ops=ops[k:k + 10], cfg=dict(g=G1)) for k in range(0, len(ops), 10)]
    recs = c.replay("WorkflowTrace", ["python3-vt", os.path.join(ROOT, "harness", "S01.py")], sc)

    def mutate(x):
        for e in x["ev"]:
            if e["op"] == "run" and e["r"]["v"] == "ok" and len(e["r"]["ev"]) >= 4 and e["cfg"]["dep"]:
                e["r"]["ev"] = []
                return True
    c.binding_selftest("WorkflowTrace", recs, mutate)
