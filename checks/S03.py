import os
from vbuild import ROOT

TYPES = "feat fix docs style refactor test chore wip clean".split()
SCOPES = "build ci cli codegen cov cxx debug doc editor ex export gen gui hstd js lex mmap org parse py refl repo report sem test".split()


def texts(c):
    """Messages beyond the ones the specification enumerates: near misses of every rule."""
    r = c.rng
    res = []

    def subject():
        ty = r.choice(TYPES + ["feat", "fix", "foo", "Feat", "FIX", "feature", "fi", "", "tes_t", "f-x", "1fix"])
        sc = r.choice(["", "", "(" + r.choice(SCOPES + ["zz", "", "PY", "py ", " py", "c++", "lex,py"]) + ")", "(py", "py)", "()", "(py)(lex)", " (py)"])
        s = ty + sc + r.choice([": ", ": ", ": ", ":", " : ", ":  ", ":\t", "! ", ":: ", ""])
        n = r.choice([0, 1, 5, 20, 50 - len(s) - 1, 50 - len(s), 50 - len(s) + 1, 60])
        return s + "".join(r.choice("ab c:(#") for _ in range(max(0, n)))

    def line():
        k = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7])
        n = r.choice([1, 10, 74, 75, 76, 120])
        return ["", "word " * 3, "x" * n, "# note", "```", "```c", "  ", "ü" * n, "  ```  ", "# " + "y" * n][k if k else r.randint(0, 9)]

    for t in TYPES + ["none"]:
        for s in SCOPES + [None, "none"]:
            if c.tier != "quick" or s in (None, "none") or r.random() < .2 or t == "fix":
                res.append(f"{t}{'(' + s + ')' if s else ''}: s\n\nb\n")
    for _ in range(c.pick(2500, 40000)):
        ls = [line() for _ in range(r.choice([0, 0, 0, 1]))] + [r.choice([subject, subject, subject, lambda: "Merge branch 'x'", lambda: "merge x"])()]
        ls += [""] * r.choice([0, 1, 1, 1, 2]) + [line() for _ in range(r.choice([0, 1, 1, 2, 4, 7]))]
        if r.random() < .3:
            # text that looks like a fence, before lines around the limit
            ls += [r.choice(["use ``` here", "`` `", "a```", "``", "```py ```", "~~~", " \t```", "'```'", "````", "# ```", "> ```"]), "z" * r.choice([75, 76, 90])]
        res.append(r.choice(["\n", "\n", "\n", "\r\n"]).join(ls) + r.choice(["", "\n", "\n\n"]))
    out = [list(x.encode()) for x in res]
    # bytes that are no valid text: short messages, so that no limit depends on how they are read
    for _ in range(60):
        out.append(list(r.choice([b"fix: ", b"foo: "]) + bytes(r.choice([255, 254, 192, 97]) for _ in range(3)) + b"\n" + r.choice([b"", b"\nbody\n"])))
    return out


def run(c):
    inv = ["BreakKind", "Comments", "Accepted"]
    c.model_check("CommitGateMC", c.cfg(constants=dict(MaxOps=c.pick(2, 4), EmitMode='"none"'), invariants=inv, view="View"), timeout=1500)
    ex = c.generate("CommitGateMC", c.cfg(constants=dict(MaxOps=c.pick(2, 3), EmitMode='"all"'), view="View"), limit=c.pick(6000, 60000), timeout=600)
    ex += c.generate("CommitGateMC", c.cfg(constants=dict(MaxOps=6, EmitMode='"depth"'), invariants=["EmitInv"]), simulate=c.pick(600, 20000), depth=8, limit=c.pick(600, 20000), timeout=300)
    sc = [dict(ops=b) for b in ex] + [dict(ops=[dict(op="msg", t=t, extra=0)]) for t in texts(c)] + [dict(ops=[dict(op="msg", t=[97], extra=1)])]
    # messages with a lone carriage return are read differently by every tool: not judged
    def clear(t):
        return not any(b == 13 and (k + 1 == len(t) or t[k + 1] != 10) for k, b in enumerate(t))
    sc = [x for x in sc if clear(x["ops"][0]["t"])]
    recs = c.replay("CommitGateTrace", ["python3-vt", os.path.join(ROOT, "harness", "S03.py")], sc)

    def mutate(x):
        e = x["ev"][0]
        if e["r"]["v"] in ("accept", "reject"):
            e["r"]["v"] = "reject" if e["r"]["v"] == "accept" else "accept"
            return True
    c.binding_selftest("CommitGateTrace", recs, mutate)
