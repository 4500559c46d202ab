"""Sequence and tree helpers of the scripts."""
import contextlib, io
import pyh
import py_scriptutils.algorithm as A


class Obj:
    pass


class Slots:
    __slots__ = ("a", "b")


class Thing:
    """Element with an identity; its truth value is configurable."""
    def __init__(self, n, truth=True):
        self.n, self.truth = n, truth

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return f"<{self.n}>"


class S:
    def op(self, o):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return self.run(o)
        except ValueError:
            return dict(v="err", x=[])

    def run(self, o):
        k = o["op"]
        if k == "walk":
            return self.walk(o)
        if k == "ansi":
            return dict(v="ok", x=[ord(ch) for ch in A.remove_ansi("".join(map(chr, o["t"])))])
        xs = [Thing(i + 1, v != 0) for i, v in enumerate(o["l"])]
        kind = {x.n: v for x, v in zip(xs, o["l"])}
        calls = []

        def pred(x):
            calls.append(x.n)
            return kind[x.n] in o["p"]
        src = xs if o["src"] == "list" else tuple(xs) if o["src"] == "tuple" else (x for x in xs)
        num = lambda v: [x.n for x in v]
        ok = lambda v: dict(v="ok", x=v)
        if k in ("left", "right", "both"):
            r = {"left": A.trim_left, "right": A.trim_right, "both": A.trim_both}[k](src, pred)
            assert isinstance(r, list)
            same = o["src"] != "list" or [x.n for x in src] == [x.n for x in xs]
            return ok(num(r)) if same else dict(v="input changed", x=[])
        if k == "part":
            inp = list(xs)
            r = A.partition_list(inp, pred)
            return ok([num(p) for p in r]) if inp == xs else dict(v="input changed", x=[])
        if k == "index":
            return ok([A.first_index_if(src, pred)])
        if k == "first":
            r = A.first_if(src, pred)
            return ok([] if r is None else [r.n])
        if k == "drop":
            return ok(num(A.drop_none(src)))
        if k == "unique":
            if o["keyed"]:
                A.validate_unique(src, lambda x: kind[x.n])
            else:
                A.validate_unique(kind[x.n] for x in src)
            return ok([])
        if k == "splice":
            return ok([r.n for r in A.maybe_splice(o["l"][0] if o["l"] else None, Thing(7))])
        if k == "cond":
            if o["src"] == "list":
                r = A.cond([(v in o["p"], i + 1) for i, v in enumerate(o["l"])])
            elif o["src"] == "tuple":
                r = A.cond(tuple((v in o["p"], i + 1) for i, v in enumerate(o["l"])))
            else:
                r = A.cond(bool(o["l"]) and o["l"][0] in o["p"], 1, 2)
            return ok([] if r is None else [r])
        raise KeyError(k)

    def walk(self, o):
        """o.n: kinds of the nodes (1..), o.e: children of each node, o.root"""
        objs = []
        for i, kd in enumerate(o["n"]):
            objs.append({"list": list, "dict": dict, "obj": Obj, "slots": Slots, "tuple": list, "leaf": lambda: 1000 + i, "str": lambda: f"s{i}", "none": lambda: None, "bool": lambda: True}[kd]())
        name = {}
        for i, (x, kd, ch) in enumerate(zip(objs, o["n"], o["e"])):
            if kd in ("list", "tuple"):
                x.extend(objs[c - 1] for c in ch)
            elif kd == "dict":
                for j, c in enumerate(ch):
                    x[f"k{j}"] = objs[c - 1]
            elif kd == "obj":
                for j, c in enumerate(ch):
                    setattr(x, f"f{j}", objs[c - 1])
            elif kd == "slots":
                x.a, x.b = objs[ch[0] - 1], objs[ch[1] - 1]
            name[id(x)] = i + 1
        ctx = ["outer"]
        pre, post = [], []
        def show(x, c):
            assert c is ctx
            return "?"
        def before(x):
            pre.append([name[id(x)], [name[id(y)] for y in ctx[1:]]])
        def after(x):
            post.append([name[id(x)], [name[id(y)] for y in ctx[1:]]])
        kw = {}
        if o["cb"] in ("both", "pre"):
            kw["pre_visit"] = before
        if o["cb"] in ("both", "post"):
            kw["post_visit"] = after
        if o["show"]:
            kw["item_visit_format"] = show
        A.iterate_object_tree(objs[o["root"] - 1], ctx, **kw)
        return dict(v="ok", x=dict(pre=pre, post=post, ctx=len(ctx)))


pyh.main(S)
