import vbuild


def b(s):
    return list(s.encode() if isinstance(s, str) else s)


def rand_value(rng, depth):
    k = rng.random()
    if depth == 0 or k < 0.35:
        c = rng.randrange(6)
        if c == 0:
            return dict(t="z")
        if c == 1:
            return dict(t="b", b=rng.random() < 0.5)
        if c == 2:
            return dict(t="n", n=b(rng.choice(["0", "-1", "7", "123456789", "-98765432101234", "1.5", "-0.25", "1e+100", "18446744073709551615"])))
        return dict(t="s", s=rand_str(rng))
    n = rng.choice([0, 1, 1, 2, 3, 4])
    if k < 0.65:
        return dict(t="a", a=[rand_value(rng, depth - 1) for _ in range(n)])
    keys = []
    while len(keys) < n:
        q = rand_str(rng)
        if q not in keys:
            keys.append(q)
    return dict(t="o", o=[dict(k=q, v=rand_value(rng, depth - 1)) for q in keys])


def rand_str(rng):
    pool = ["a", "b", "c", "key", " ", '"', "\\", "\n", "\t", "\x01", "\x1f", "\x7f", "{", "]", ",", ":", "é", "語", "/", "long text that fills the line"]
    return b("".join(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))))


def run(c):
    K = dict(Deep=c.pick("FALSE", "TRUE"))
    c.model_check("JsonTextMC", c.cfg(constants=K, invariants=["RendersBack", "FilterExact"]))
    vals = c.generate("JsonTextMC", c.cfg(constants=K, invariants=["EmitVal"]), workers=1)
    exe = vbuild.build("V03", ["V03.cpp"], sources=["hstd/stdlib/Json.cpp"], libs=["-lfmt"])
    opts = lambda: dict(width=c.rng.choice([0, 0, 3, 5, 8, 12, 20, 40, 80, 100000]), indent=c.rng.choice([0, 1, 2, 4]), start=c.rng.choice([0, 0, 1, 3, 7]), stable=c.rng.random() < 0.5)
    sc = []
    for v in vals:
        for w in (0, 3, 6, 10, 16, 100000):
            sc.append(dict(op="render", v=v, o=dict(width=w, indent=2, start=c.rng.choice([0, 2]), stable=c.rng.random() < 0.5)))
        sc.append(dict(op="filter", v=v, names=c.rng.sample([[97], [97, 34], [92]], c.rng.randrange(0, 4))))
    for _ in range(c.pick(2500, 20000)):
        v = rand_value(c.rng, c.rng.choice([1, 2, 3, 4]))
        sc.append(dict(op="render", v=v, o=opts()))
        keys = []
        def walk(x):
            for f in x.get("o", []):
                keys.append(f["k"]); walk(f["v"])
            for f in x.get("a", []):
                walk(f)
        walk(v)
        names = c.rng.sample(keys, c.rng.randrange(0, min(4, len(keys)) + 1)) + [b("zz")] * c.rng.randrange(2)
        sc.append(dict(op="filter", v=v, names=names))
    recs = c.replay("JsonTextTrace", [exe], [dict(ops=[o]) for o in sc])

    def mutate(r):
        for e in r["ev"]:
            if e["op"] == "render" and 34 in e["r"]["v"]:
                e["r"]["v"].remove(34)
                return True
    c.binding_selftest("JsonTextTrace", recs, mutate)
