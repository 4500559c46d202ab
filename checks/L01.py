import vbuild

MSG = [b"", b"a", b" ", b"x y", b"a\nb", b"\n", b"tail\n", b"two\n\nlines", b"{}", b"%1"]


def steps(rng, plain=False):
    q = []
    for _ in range(rng.randrange(0, 7)):
        k = rng.choice(["msg", "msg", "msg", "int", "pre", "space", "fmt", "sev", "sev", "cat", "depth", "site", "scope", "scopes", "id"] + ([] if plain else ["meta", "meta"]))
        s = dict(k=k)
        if k in ("msg", "pre", "fmt"):
            s["t"] = list(rng.choice(MSG))
        elif k in ("scope", "scopes", "cat"):
            s["t"] = list(rng.choice([b"", b"c", b"d"]))
        elif k == "int":
            s["n"] = rng.choice([0, -1, 7, 10, 2147483647])
        elif k == "sev":
            s["n"] = rng.randrange(6)
        elif k == "depth":
            s["n"] = rng.randrange(4)
        elif k == "site":
            s.update(n=rng.choice([0, 1, 12, 345]), f=rng.choice([-1, 0, 1]), g=rng.choice([-1, 0, 1]))
        elif k == "id":
            s["n"] = rng.randrange(3)
        elif k == "meta":
            s.update(n=rng.randrange(2), v=rng.choice([0, 5, 12]))
        q.append(s)
    return q


def emission(rng):
    how = rng.choice(["rec", "rec", "bld", "bmove", "released", "quiet", "fin", "finmove", "uniq", "uniq", "chg"])
    o = dict(op="emit", how=how, rec=steps(rng, how in ("uniq", "chg")))
    if how in ("uniq", "chg"):
        o.update(n=rng.choice([1, 2]), reset=rng.random() < 0.1)
        if rng.random() < 0.7:
            o["rec"] = [dict(k="msg", t=list(rng.choice([b"a", b"b"])))]
    return o


def filt(rng):
    k = rng.choice(["all", "none", "sev", "sev", "notsev", "cat", "empty", "throw"])
    f = dict(k=k)
    if k in ("sev", "notsev"):
        f["n"] = rng.randrange(6)
    if k == "cat":
        f["t"] = list(rng.choice([b"", b"c"]))
    return f


def block(rng):
    b = []
    for _ in range(rng.randrange(1, 7)):
        k = rng.random()
        if k < 0.45:
            b.append(dict(op=rng.choice(["lscope", "ldrop", "ldepth"])))
        elif k < 0.6:
            b.append(dict(op="push", k="mem"))
        elif k < 0.9:
            b.append(emission(rng))
        else:
            b.append(dict(op="clear"))
    if rng.random() < 0.5:
        b.append(dict(op="throw"))
    return b


def history(rng, n):
    ops, out = [], False
    for _ in range(n):
        k = rng.random()
        s = rng.randrange(1, 4)
        if k < 0.14:
            kind = rng.choice(["mem", "mem", "mem", "file"] + ([] if out else ["out"]))
            out |= kind == "out"
            ops.append(dict(op="push", k=kind))
        elif k < 0.18:
            ops.append(dict(op="again", s=s))
        elif k < 0.28:
            ops.append(dict(op="filter", s=s, f=filt(rng)))
        elif k < 0.30:
            ops.append(dict(op="clear"))
        elif k < 0.48:
            ops.append(dict(op=rng.choice(["open", "open", "opendrop", "openpush", "drop", "close", "close", "close"]), n=s))
        elif k < 0.54:
            ops.append(dict(op="move", n=s, to=rng.randrange(1, 4)))
        elif k < 0.62:
            ops.append(dict(op=rng.choice(["deeper", "shallower"])))
        elif k < 0.66:
            ops.append(dict(op="last"))
        elif k < 0.76:
            ops.append(dict(op="block", b=block(rng)))
        elif k < 0.82:
            ops.append(dict(op="macro", n=rng.randrange(6), t=list(rng.choice(MSG))))
        else:
            ops.append(emission(rng))
    return ops


def threads(rng, big):
    ops = [dict(op="push", k="mem") for _ in range(rng.randrange(1, 3))]
    if rng.random() < 0.5:
        ops.append(dict(op="filter", s=1, f=dict(k="sev", n=rng.randrange(6))))
    n = rng.randrange(2, 5)
    t = [rng.randrange(1, big) for _ in range(n)]
    pause = [[j + 1, rng.randrange(1, t[j] + 1)] for j in range(n) if rng.random() < 0.6]
    ops.append(dict(op="par", t=t, pause=pause))
    return ops


def run(c):
    K = dict(MaxOps=100, MaxSinks=2, EmitMode='"none"', Rich="FALSE")
    c.model_check("LoggingMC", c.cfg(constants=dict(K, MaxOps=c.pick(7, 10)), view="View", invariants=["OneOwner"], properties=["Once", "Silent", "Restored", "BlockRestores"]))
    al = c.generate("LoggingMC", c.cfg(constants=dict(K, MaxOps=c.pick(5, 6), EmitMode='"all"'), view="View"), workers=1, limit=c.pick(2500, 20000))
    lo = c.generate("LoggingMC", c.cfg(constants=dict(K, MaxSinks=4, Rich="TRUE", MaxOps=c.pick(25, 50), EmitMode='"depth"'), invariants=["EmitInv"]),
                    simulate=c.pick(60, 600), depth=c.pick(27, 52), limit=c.pick(500, 5000))
    exe = vbuild.build("L01", ["L01.cpp"], sources=["hstd/ext/logger.cpp"] + vbuild.CORE, libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    sc = [dict(ops=x) for x in al + lo]
    sc += [dict(ops=history(c.rng, c.rng.randrange(4, 30))) for _ in range(c.pick(1200, 12000))]
    sc += [dict(ops=threads(c.rng, 4)) for _ in range(c.pick(60, 400))] + [dict(ops=threads(c.rng, 60)) for _ in range(c.pick(20, 100))]
    recs = c.replay("LoggingTrace", [exe], sc)

    def mutate(r):
        for e in r["ev"]:
            if e["op"] == "emit" and e["r"]["d"] and isinstance(e["r"]["d"][0], list) and e["r"]["d"][0] and isinstance(e["r"]["d"][0][0], dict):
                e["r"]["d"][0] = e["r"]["d"][0] * 2
                return True
    c.binding_selftest("LoggingTrace", recs, mutate)
