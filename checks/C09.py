import vbuild

WORDS = ["a", "bb", "ccc", "dddd", "eeeee", "ffffff", "(", ")", "", "x y"]


class Gen:
    """Random block program; the number of renderings is kept small."""

    def __init__(self, rng):
        self.rng, self.ops = rng, []

    def emit(self, op, **kw):
        self.ops.append(dict(op=op, **kw))

    def word(self):
        w = self.rng.choice(WORDS)
        self.emit("text", s=w, n=len(w))
        return 1

    def block(self, depth, solid=False):
        """Emit one block; return an upper bound on its renderings."""
        r = self.rng
        k = r.random()
        if depth == 0 or k < 0.12:
            if not solid and r.random() < 0.12:
                self.ops.append(r.choice([dict(op="empty"), dict(op="line", k=0), dict(op="stack", k=0)]))
                return 1
            if r.random() < 0.1:
                self.emit("space", n=r.randrange(0, 4))
                return 1
            if r.random() < 0.03:
                self.emit("verb", t=[r.choice(WORDS[:6]) for _ in range(r.randrange(1, 4))], nl=r.random() < 0.3)
                return 1
            return self.word()
        if k < 0.37 or k < 0.6:
            n = r.randrange(1, 4)
            m = 1
            for _ in range(n):
                m *= self.block(depth - 1, solid)
                if r.random() < 0.06:
                    self.emit("breaking")
            self.emit("line" if k < 0.37 else "stack", k=n)
            if k >= 0.37 and r.random() < 0.1:
                self.emit("mult", m=r.choice([0, 2, 3]))
            return m
        if k < 0.75:
            n = r.randrange(1, 4)
            m = sum(self.block(depth - 1, True) for _ in range(n))
            self.emit("choice", k=n)
            return m
        if k < 0.85:
            n = r.randrange(1, 5)
            m = 1
            for _ in range(n):
                m *= self.block(min(depth - 1, 1), True)
                if r.random() < 0.08:
                    self.emit("breaking")
            s, z = r.choice([(",", 0), (",", 1), ("", 1), ("", 0), ("+-", 2)])
            self.emit("wrap", k=n, s=s, n=len(s), z=z, m=r.choice([1, 1, 2]))
            return m * 2 ** (n - 1)
        if k < 0.92:
            m = self.block(depth - 1, solid)
            self.emit("indent", n=r.randrange(0, 4))
            return m
        n = r.randrange(1, 4)
        m = 1
        for _ in range(n):
            m *= self.block(depth - 1, True)
        self.emit("text", s=",", n=1)
        op = r.choice(["vertical", "horizontal", "join"])
        self.emit(op, k=n, **(dict(hor=r.random() < 0.5, trail=r.random() < 0.5) if op == "join" else {}))
        return m

    def show(self):
        r = self.rng
        self.emit("print", left=r.choice([0, 0, 0, 3]), right=r.choice([3, 5, 8, 12, 20, 80]), lb=r.choice([5, 5, 5, 1, 0]), rmc=r.choice([100, 100, 10]))


def programs(rng, n):
    out = []
    while len(out) < n:
        g = Gen(rng)
        m = g.block(rng.randrange(1, 5))
        g.show()
        if rng.random() < 0.4:
            g.show()
        if rng.random() < 0.25:
            m *= g.block(1, True)
            g.emit("add")
            g.show()
        if m <= 64 and len(g.ops) <= 40:
            out.append(dict(ops=g.ops))
    return out


def run(c):
    exe = c.build("C09", ["C09.cpp"], sources=["hstd/ext/textlayouter.cpp", "hstd/stdlib/dod_base.cpp"] + vbuild.CORE, libs=vbuild.CORE_LIBS, per_file=vbuild.CORE_PLAIN)
    al = c.generate("LayoutMC", c.cfg(constants=dict(MaxOps=c.pick(4, 5), EmitMode='"all"'), view="View", invariants=["Complete", "Offers", "Accepts"]), workers=1, limit=c.pick(2500, 30000))
    sc = [dict(ops=x) for x in al] + programs(c.rng, c.pick(2500, 20000))
    recs = c.replay("LayoutTrace", [exe.result()], sc)

    def mutate(r):
        for e in r["ev"]:
            if e["op"] == "print" and any(e["r"]["out"]):
                e["r"]["out"] = e["r"]["out"] + ["zz"]
                return True
    c.binding_selftest("LayoutTrace", recs, mutate)
