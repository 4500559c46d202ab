"""Task runner: builds real task graphs in a scratch directory, runs them and reports which bodies ran."""
import json, logging, os, shutil, sys, tempfile, types
from pathlib import Path
import pyh

pyh.pretend("plumbum")
pyh.pretend("docker", "docker.models", "docker.models.containers")


# Just enough of a directed graph library for the runner.
class Vertices:
    def __init__(self, g):
        self.g = g

    def find(self, name):
        for i, n in enumerate(self.g.names):
            if n == name:
                return types.SimpleNamespace(index=i)
        raise ValueError(f"no such vertex: {name}")

    def __getitem__(self, k):
        if isinstance(k, int):
            return {"name": self.g.names[k]}
        return {"name": [self.g.names[i] for i in k]}


class Graph:
    def __init__(self, directed=False):
        self.names, self.edges = [], []

    def add_vertex(self, name):
        self.names.append(name)

    def add_edge(self, a, b):
        self.edges.append((a, b))

    @property
    def vs(self):
        return Vertices(self)

    def subcomponent(self, idx, mode):
        assert mode == "in"
        res, todo = [], [self.names[idx]]
        while todo:
            n = todo.pop()
            if n not in res:
                res.append(n)
                todo += [a for a, b in self.edges if b == n]
        return [self.names.index(n) for n in res]

    def induced_subgraph(self, idx):
        g = Graph()
        keep = {self.names[i] for i in idx}
        g.names = [n for n in self.names if n in keep]
        g.edges = [e for e in self.edges if e[0] in keep and e[1] in keep]
        return g

    def topological_sorting(self):
        # the last task that can go next goes next: far from the order of declaration
        res, left = [], list(self.names)
        while left:
            n = [x for x in left if not any(b == x and a in left for a, b in self.edges)][-1]
            res.append(self.names.index(n))
            left.remove(n)
        return res


pyh.pretend("igraph").Graph = Graph


class HaxorgConfig:
    def __init__(self, dep, unch, x):
        self.use_dependencies, self.use_unchanged_tasks, self.x = dep, unch, x

    def model_dump_json(self):
        return json.dumps([self.use_dependencies, self.use_unchanged_tasks, self.x])


import py_repository.repo_tasks
conf = types.ModuleType("py_repository.repo_tasks.config")
conf.HaxorgConfig = HaxorgConfig
conf.get_tmpdir = lambda *n: Path(os.getcwd())
sys.modules["py_repository.repo_tasks.config"] = conf
import py_repository.repo_tasks.workflow_utils as W
from py_scriptutils.files import FileOperation, normalize_paths
logging.disable(logging.CRITICAL)
BASE = 1_000_000_000


class Planned(Exception):
    pass


class S:
    def start(self, sc):
        self.dir = Path(tempfile.mkdtemp(dir=os.getcwd()))
        self.home = os.getcwd()
        for d in ("cwd", "files", "stamps"):
            (self.dir / d).mkdir()
        os.chdir(self.dir / "cwd")
        self.g = sc["cfg"]["g"]
        self.style = sc["cfg"].get("style", 0)
        self.clock = 1
        n = self.g["n"]
        self.salt = [0] * (n + 1)
        self.ev = []
        self.fail = {}
        self.fun = {}
        for t in range(1, n + 1):
            self.write(self.src(t))
            self.fun[t] = self.make(t)
        self.session()

    def stop(self):
        os.chdir(self.home)
        shutil.rmtree(self.dir, ignore_errors=True)

    def src(self, t):
        return self.dir / "files" / f"src{t}"

    def src2(self, t):
        return self.dir / "files" / f"more{t}"

    def out(self, t):
        return self.dir / "files" / f"out{t}"

    def write(self, p, text="."):
        p.write_text(text)
        os.utime(p, (BASE + self.clock, BASE + self.clock))

    def session(self):
        order = list(self.fun.values())
        if self.style % 2:
            order.reverse()
        self.ctx = W.TaskContext(graph=W.create_dag_from_tasks(order), stamp_root=self.dir / "stamps" / "deep", config=HaxorgConfig(True, False, 0), repo_root=self.dir)

    def make(self, t):
        kind, deps, calls = self.g["kind"][t - 1], self.g["deps"][t - 1], self.g["calls"][t - 1]

        def body(ctx: W.TaskContext) -> None:
            self.ev.append(["s", t])
            for c in calls:
                ctx.run(self.fun[c], ctx=ctx)
            if self.fail.get(t) is False:
                self.ev.append(["f", t])
                raise Planned()
            if kind in ("io", "tmpo"):
                self.write(self.out(t))
                self.ev.append(["w", t])
            if self.fail.get(t) is True:
                self.ev.append(["f", t])
                raise Planned()
            self.ev.append(["e", t])

        body.__name__ = f"job{t}" + ("_task" if self.style & 2 else "")
        ins = [self.src(t), self.src2(t)] + [self.out(d) for d in deps if self.g["kind"][d - 1] in ("io", "tmpo")]
        form = (self.style // 4 + t) % 5
        give = {0: lambda v: list(v), 1: lambda v: [str(x) for x in v], 2: lambda v: [lambda ctx: list(v)], 3: lambda v: (lambda ctx: (x for x in v)), 4: lambda v: [str(v[0])] + list(v[1:])}[form]
        content = lambda ctx: {"salt": self.salt[t], "x": ctx.config.x}
        fo = {"none": lambda: None,
              "io": lambda: FileOperation.InOut(give(ins), give([self.out(t)])),
              "tmp": lambda: FileOperation.InTmp(give(ins), f"stamp{t}"),
              "tmpc": lambda: FileOperation.InTmp(give(ins), f"stamp{t}", content),
              "tmpo": lambda: FileOperation.InTmp(give(ins), f"stamp{t}", "text", output=[self.out(t)]),
              "only": lambda: FileOperation.OnlyStamp(f"stamp{t}", content),
              "onlys": lambda: FileOperation.OnlyStamp(f"stamp{t}", "text")}[kind]()
        return W.haxorg_task(dependencies=[self.fun[d] for d in deps], file_operation=fo)(body)

    def op(self, o):
        return getattr(self, "op_" + o["op"])(o)

    def op_touch(self, o):
        t, w = o["t"], o["what"]
        stamp = self.dir / "stamps" / "deep" / f"stamp{t}"
        if w in ("src", "src2"):
            self.clock += 1
            self.write(self.src(t) if w == "src" else self.src2(t))
        elif w == "nosrc2":
            self.src2(t).unlink(missing_ok=True)
        elif w == "noout":
            self.out(t).unlink(missing_ok=True)
        elif w == "nostamp":
            stamp.unlink(missing_ok=True)
        elif w == "salt":
            self.salt[t] = 1 - self.salt[t]
        elif w == "session":
            self.session()
        return dict(v="ok")

    def op_run(self, o):
        self.clock += 1
        self.ev = []
        self.fail = {t: w for t, w in o["fail"]}
        c = o["cfg"]
        ctx = self.ctx.with_temp_config(HaxorgConfig(c["dep"], c["unch"], c["x"]))
        f = self.fun[o["t"]]
        v = "ok"
        try:
            ctx.run(f if self.style & 1 else f._haxorg_metadata.task_id, ctx=ctx)
        except Planned:
            v = "fail"
        except Exception as e:
            v = f"raised {type(e).__name__}: {e}"[:200]
        # what a body that failed inside of another one did to the outer one
        if v == "fail":
            opened = [t for k, t in self.ev if k == "s"]
            closed = [t for k, t in self.ev if k in "ef"]
            self.ev += [["f", t] for t in reversed(opened) if t not in closed]
        # stamps were written with the real time: move them to the time of this run
        root = self.dir / "stamps" / "deep"
        if root.exists():
            for p in root.iterdir():
                if p.stat().st_mtime > BASE + 500_000_000:
                    os.utime(p, (BASE + self.clock, BASE + self.clock))
        stray = len(os.listdir(self.dir / "cwd"))
        for x in os.listdir(self.dir / "cwd"):
            os.unlink(self.dir / "cwd" / x)
        return dict(v=v, ev=self.ev, stray=stray)

    def op_need(self, o):
        d = Path(tempfile.mkdtemp(dir=self.dir))
        def put(name, time, text="."):
            p = d / name
            if time:
                p.write_text(text)
                os.utime(p, (BASE + time, BASE + time))
            return p
        ins = [put(f"i{k}", t) for k, t in enumerate(o["ins"])]
        outs = [put(f"o{k}", t) for k, t in enumerate(o["outs"])]
        kw = {}
        if o["stamp"]:
            put("stamp", o["stamp"][0], f"c{o['stamp'][1]}")
            kw = dict(stamp_name="stamp", stamp_content=f"c{o['content']}")
        f = FileOperation(input=ins, output=outs, **kw)
        try:
            r = f.should_run(d)
        except Exception as e:
            return dict(v=f"raised {type(e).__name__}")
        return dict(v="run" if r else "skip")

    def op_paths(self, o):
        def conv(t):
            k = t["k"]
            if k == "str":
                return t["v"]
            if k == "path":
                return Path(t["v"])
            c = [conv(x) for x in t["c"]]
            return {"list": lambda: c, "gen": lambda: (x for x in c), "call": lambda: (lambda: c), "map": lambda: map(lambda x: x, c)}[k]()
        try:
            r = normalize_paths(conv(o["p"]))
        except Exception as e:
            return dict(v=f"raised {type(e).__name__}", x=[])
        return dict(v="ok", x=[str(x) for x in r])


pyh.main(S)
