import itertools
import vbuild

TY = {"i8": (8, True), "u8": (8, False), "i16": (16, True), "u16": (16, False), "i32": (32, True), "u32": (32, False),
      "i64": (64, True), "u64": (64, False), "ill": (64, True), "ull": (64, False)}


def wide(x):
    n, m, d = x < 0, abs(x), []
    while m:
        d.append(m & 0xffff)
        m >>= 16
    return dict(neg=n, d=d)


def bounds(t):
    b, s = TY[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def T(t):
    return dict(name=t, bits=TY[t][0], sgn=TY[t][1])


def run(c):
    c.model_check("NumericMC", c.cfg(constants=dict(Step=c.pick(15, 4)),
                                     invariants=["AddOk", "SubOk", "LtOk", "SatOk", "StepOk"]))
    exe = vbuild.build("V06", ["V06.cpp"], sources=["hstd/system/string_base.cpp", "hstd/system/aux_utils.cpp"], libs=["-lfmt"])
    r = c.rng
    ops = []

    def vals(t, n):
        lo, hi = bounds(t)
        out = {lo, lo + 1, hi, hi - 1, max(lo, -1), 0, 1, (lo + hi) // 2, lo + (hi - lo) // 2 + 1}
        out |= {x for x in (127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, -128, -129, -32768, -2**31) if lo <= x <= hi}
        while len(out) < n and len(out) < hi - lo:
            k = r.randrange(1, TY[t][0])
            x = r.getrandbits(k) * r.choice([1, 1, -1])
            if lo <= x <= hi:
                out.add(x)
        return sorted(out)

    def dom(name, lo, hi, rel, x):
        ops.append(dict(op="dom", d=dict(name=name, lo=wide(lo), hi=wide(hi), rel=rel), x=wide(x)))
    for t in TY:
        lo, hi = bounds(t)
        for x in (range(lo, hi + 1) if TY[t][0] == 8 else vals(t, c.pick(60, 600))):
            if x < 2**63:      # ordinals are signed 64 bit numbers
                dom(t, lo, hi, False, x)
    for x in range(256):
        dom("char", 0, 255, False, x)
    for n, lo, hi in (("E1", -3, 2), ("E2", 0, 3), ("E3", 2, 4), ("range", -5, 7)):
        for x in range(lo, hi + 1):
            dom(n, lo, hi, True, x)

    # every pair of operand types; 8 bit pairs densely
    for t in TY:
        for u in TY:
            va, vb = vals(t, 18), vals(u, 18)
            pairs = [(a, b) for a in va for b in vb]
            r.shuffle(pairs)
            for a, b in pairs[:c.pick(60, 400)]:
                ops.append(dict(op=r.choice(["sadd", "ssub", "sany"]), t=T(t), u=T(u), a=wide(a), b=wide(b)))
    for t, u in (("i8", "i8"), ("u8", "u8"), ("u8", "i8"), ("i8", "u8"), ("u8", "i32")):
        step = c.pick(9, 2)
        lo, hi = bounds(t)
        l2, h2 = bounds(u) if TY[u][0] == 8 else (-600, 600)
        for a in range(lo + r.randrange(step), hi + 1, step):
            for b in range(l2 + r.randrange(step), h2 + 1, step * (3 if u == "i32" else 1)):
                ops.append(dict(op=r.choice(["sadd", "ssub", "sany"]), t=T(t), u=T(u), a=wide(a), b=wide(b)))
    for t in ("u8", "u16", "u32", "u64"):
        b = TY[t][0]

        def rb():
            m = r.choice(["rand", "rand", "top", "low", "one", "zero", "all"])
            k = r.randrange(1, b)
            if m == "rand":
                return [r.randrange(2) for _ in range(b)]
            if m == "top":
                return [0] * (b - k) + [1] * k
            if m == "low":
                return [1] * k + [0] * (b - k)
            if m == "one":
                return [1 if i == k else 0 for i in range(b)]
            return [0 if m == "zero" else 1] * b
        for _ in range(c.pick(150, 1500)):
            a, m, v = rb(), rb(), rb()
            if r.random() < 0.4:
                v = [x & y for x, y in zip(a, m)]
                if r.random() < 0.3:
                    v[r.randrange(b)] ^= 1
            ops.append(dict(op="bits", t=T(t), a=a, m=m, v=v, k=r.randrange(1, b + 1)))
    for t in TY:
        if t != "i8":
            for x in (range(*bounds(t)) if TY[t][0] == 8 else vals(t, c.pick(60, 500))):
                ops.append(dict(op="dump", t=T(t), x=wide(x)))
    for x in range(-128, 128):
        ops.append(dict(op="dump", t=dict(name="char", bits=8, sgn=True), x=wide(x)))
    for w in ("int", "char"):
        for a, n, p in itertools.product((0, 3, 7), (0, 1, 2, 5), range(0, 14)):
            ops.append(dict(op="ptr", w=w, a=a, n=n, p=p))
    for _ in range(c.pick(300, 2000)):
        al = [97, 98, 44, 32, 0xc3, 0xa9]
        t = lambda k: [r.choice(al) for _ in range(r.randrange(k))]
        ops.append(dict(op="join", w=r.choice(["vec", "list"]), sep=t(3), l=[t(4) for _ in range(r.randrange(5))]))
    for _ in range(c.pick(700, 5000)):
        a = r.randrange(-40, 41)
        b = r.choice([r.randrange(-40, 41), a + r.randrange(-3, 4)])
        ops.append(dict(op="close", a=a, b=b, rt=r.randrange(0, 9), at=r.randrange(0, 9)))
    for n in range(-3, 6):
        for k in range(7):
            ops.append(dict(op="pow", n=n, k=k))
    for k in range(4):
        for p in itertools.product(range(3), repeat=k):
            for x in range(3):
                ops.append(dict(op="pack", p=list(p), x=x))
    recs = c.replay("NumericTrace", [exe], [dict(ops=[o]) for o in ops])

    def mutate(x):
        e = x["ev"][0]
        if e["op"] == "dump":
            e["r"]["v"]["hex"][-1] = 71
            return True
        if e["op"] in ("sadd", "ssub"):
            e["r"]["v"]["d"] = e["r"]["v"]["d"] + [7]
            return True
    c.binding_selftest("NumericTrace", recs, mutate)
