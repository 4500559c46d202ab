"""Trace collector under a scheduler that decides after every executed line which thread goes on."""
import json, os, sys, tempfile, threading, types
import pyh
from pathlib import Path


class Sched:
    """One thread runs at a time.  A thread that gets stuck on something the scheduler does not know about is
    overtaken after a while."""
    def __init__(self, n, plan):
        self.n, self.plan, self.k = n, plan, 0
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.waiting = {}
        self.run = 0
        self.cur = None

    def pick(self):
        ok = [t for t in sorted(self.alive) if not (t in self.waiting and self.waiting[t].owner is not None)]
        if not ok:
            ok = sorted(self.alive)
        if not ok:
            return None
        if self.k < len(self.plan):
            v = self.plan[self.k]
            self.k += 1
        else:
            self.k += 1
            v = self.k
        return ok[v % len(ok)]

    def switch(self, me):
        nxt = self.pick()
        if nxt is None or nxt == me:
            return
        self.cur = nxt
        self.go[nxt].release()
        if me is not None and me in self.alive:
            self.go[me].acquire(timeout=20)

    def done(self, me):
        self.alive.discard(me)
        self.waiting.pop(me, None)
        nxt = self.pick()
        if nxt is not None:
            self.cur = nxt
            self.go[nxt].release()


SCHED = None
ME = threading.local()


def here():
    return getattr(ME, "n", None) if SCHED else None


class Coop:
    """Lock the scheduler knows about."""
    def __init__(self, reentrant=False):
        self.owner, self.depth, self.re = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = here()
        who = ("t", me) if me is not None else ("o", threading.get_ident())
        if self.re and self.owner == who:
            self.depth += 1
            return True
        spins = 0
        while self.owner is not None:
            if not blocking or me is None:
                return False
            SCHED.waiting[me] = self
            SCHED.switch(me)
            spins += 1
            if spins > 5000:
                raise RuntimeError("deadlock")
        if me is not None:
            SCHED.waiting.pop(me, None)
        self.owner, self.depth = who, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release of an unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


TRACER = os.path.join(pyh.REPO, "scripts", "py_scriptutils", "py_scriptutils", "tracer.py")
import beartype, beartype.door, contextlib, inspect, dataclasses, time        # their own locks stay real


class Clock:
    def __init__(self):
        self.now, self.back, self.reads, self.calls = 1000, [], {}, 0

    def time(self):
        self.calls += 1
        self.now += -7 if self.calls in self.back else 1
        self.reads.setdefault(here() if here() is not None else -1, []).append(self.now)
        return float(self.now)

    monotonic = perf_counter = time

    def time_ns(self):
        return int(self.time()) * 10**9

    monotonic_ns = perf_counter_ns = time_ns

    def sleep(self, _):
        pass


def fresh():
    """The module as a new process would see it, with locks the scheduler knows about."""
    shim = types.ModuleType("threading")
    shim.__dict__.update(threading.__dict__)
    shim.Lock, shim.RLock = Coop, (lambda: Coop(True))
    sys.modules.pop("py_scriptutils.tracer", None)
    clock = Clock()
    ticks = types.ModuleType("time")
    ticks.__dict__.update(time.__dict__)
    for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns", "sleep"):
        setattr(ticks, n, getattr(clock, n))
    sys.modules["threading"], sys.modules["time"] = shim, ticks
    try:
        import py_scriptutils.tracer as T
    finally:
        sys.modules["threading"], sys.modules["time"] = threading, time
    return T, clock


class Oops(Exception):
    pass


class S:
    def start(self, sc):
        self.T, self.clock = fresh()
        self.col = None if sc["cfg"]["glob"] else self.T.TraceCollector()
        self.glob = sc["cfg"]["glob"]
        self.opcode = sc["cfg"].get("fine", False)
        self.tids = {}
        self.seen = {}
        self.shared = {"s": "1"}

    def collector(self):
        return self.T.getGlobalTraceCollector() if self.glob else self.col

    def op(self, o):
        return getattr(self, "op_" + o["op"])(o)

    def events(self):
        res = []
        for e in list(self.collector().traceEvents):
            # a later thread may get the identifier of this one
            th = self.seen.setdefault(id(e), (self.tids.get(e.tid, 0), e))[0]
            a = dict(e.args or {})
            site = [os.path.basename(str(a.pop("call_file", "") or "")), a.pop("call_line", 0) or 0, a.pop("call_function", "") or ""]
            res.append(dict(n=e.name, th=th, pid=e.pid == os.getpid(), ph=e.ph.value, cat=e.cat or "", ts=(e.ts or 0) // 1000000,
                            dur=(e.dur or 0) // 1000000, args=[[k, str(v)] for k, v in sorted(a.items())], site=site))
        return res

    def op_restart(self, o):
        if self.glob:
            self.T.GlobRestart()
        else:
            self.col.traceEvents = []
        return dict(v="ok", log=self.events())

    def op_export(self, o):
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            p = Path(d) / "a" / "b" / "t.json"
            self.collector().set_metadata("k", o["meta"])
            if self.glob:
                self.T.GlobExportJson(p)
            else:
                self.col.export_to_json(p)
            data = json.loads(p.read_text())
            evs = self.collector().traceEvents
            own = [self.seen[id(x)] for x in evs]
            got = [[e["name"], e["ph"], own[k][0] if k < len(own) and own[k][1].tid == e["tid"] else 0, (e["ts"] or 0) // 1000000, (e["dur"] or 0) // 1000000] for k, e in enumerate(data["traceEvents"])]
            return dict(v="ok", log=got, meta=data["otherData"].get("k", -1))
        finally:
            import shutil
            shutil.rmtree(d, ignore_errors=True)

    def op_threads(self, o):
        global SCHED
        progs = o["prog"]
        SCHED = Sched(len(progs), o["plan"])
        self.clock.back = [self.clock.calls + b for b in o["back"]]
        self.seq = 0
        self.calls = []
        ths = [threading.Thread(target=self.body, args=(k, p), daemon=True) for k, p in enumerate(progs)]
        for t in ths:
            t.start()
        first = SCHED.pick()
        SCHED.cur = first
        SCHED.go[first].release()
        for t in ths:
            t.join(timeout=60)
        stuck = any(t.is_alive() for t in ths)
        SCHED = None
        return dict(v="stuck" if stuck else "ok", calls=self.calls, log=self.events(), last=self.last())

    def last(self):
        e = self.collector().get_last_event()
        return [] if e is None else [e.name]

    def body(self, k, prog):
        SCHED.go[k].acquire()
        ME.n = k
        self.tids[threading.get_ident()] = k + 1

        def local(frame, what, arg):
            if what in ("line", "opcode") and SCHED:
                SCHED.switch(k)
            return local

        def tr(frame, what, arg):
            if frame.f_code.co_filename == TRACER:
                if self.opcode:
                    frame.f_trace_opcodes = True
                if SCHED:
                    SCHED.switch(k)
                return local
            return None
        sys.settrace(tr)
        try:
            self.block(k, prog)
        except Oops:
            pass
        finally:
            sys.settrace(None)
            SCHED.done(k)

    def call(self, k, what, name, f, g, site=None):
        rec = dict(th=k + 1, k=what, n=name, a=self.seq + 1, b=0, reads=[], v="ok", g=g, site=site or ["", 0, ""])
        self.seq += 1
        self.calls.append(rec)
        mark = len(self.clock.reads.get(k, []))
        try:
            f()
        except Oops:
            raise
        except (KeyError, IndexError):
            rec["v"] = "none"
        except Exception as e:
            rec["v"] = f"raised {type(e).__name__}"
        finally:
            self.seq += 1
            rec["b"] = self.seq
            rec["reads"] = self.clock.reads.get(k, [])[mark:]

    def block(self, k, prog):
        T = self.T
        for o in prog:
            w, n = o["k"], o["n"]
            args = {"v": n} if o["args"] == 1 else None if o["args"] == 0 else self.shared
            if w == "push":
                self.call(k, w, n, lambda: self.collector().push_complete_event(n, "c" + n, args), o["args"])
            elif w == "pop":
                self.call(k, w, n, lambda: self.collector().pop_complete_event(), 0)
            elif w == "meta":
                f = {True: [T.GlobNameThisProcess, T.GlobNameThisThread][o["args"] % 2]} if self.glob else {False: [self.col.add_process_name_event, self.col.add_thread_name_event][o["args"] % 2]}
                self.call(k, "meta", n, lambda: f[self.glob](n), o["args"])
            elif w == "index":
                v = int(n[1:])
                f = [T.GlobIndexThisProcess, T.GlobIndexThisThread] if self.glob else [self.col.add_process_index_event, self.col.add_thread_index_event]
                self.call(k, "index", n, lambda: f[o["args"] % 2](v), o["args"])
            elif w == "add":
                evs = [T.TraceEvent(name=n + "." + str(j), ph=T.EventType.COMPLETE, pid=os.getpid(), tid=threading.get_ident(), args={}, dur=5000000, ts=3000000) for j in range(o["args"])]
                self.call(k, "add", n, lambda: (T.GlobAddEvents if self.glob else self.col.addEvents)(evs), o["args"])
            elif w == "scope":
                self.scope(k, o, args)

    def scope(self, k, o, args):
        n, T = o["n"], self.T
        cm = T.GlobCompleteEvent(n, "c" + n, args) if self.glob else self.col.complete_event(n, "c" + n, args, **({"file": "F.py", "line": 5, "function": n} if o["x"] == 2 else {}))
        site = ["S02.py", 0, "opening"] if self.glob else ["F.py", 5, n] if o["x"] == 2 else ["", 0, ""]
        rec = {}
        def opening():
            rec["line"] = sys._getframe().f_lineno + 1
            cm.__enter__()
        self.call(k, "push", n, opening, o["args"], site)
        if self.glob:
            site[1] = rec["line"]
        try:
            self.block(k, o["b"])
            if o["x"] == 1:
                raise Oops()
        except Oops as e:
            def closing():
                try:
                    if cm.__exit__(type(e), e, e.__traceback__):
                        raise RuntimeError("swallowed")
                except Oops:
                    pass
            self.call(k, "pop", n, closing, 0)
            if not o["c"]:
                raise
        else:
            self.call(k, "pop", n, lambda: cm.__exit__(None, None, None), 0)


pyh.main(S)
