"""Check runner: TLC model checking, behaviour generation, replay into the real
code, and validation of the recorded executions against the TLA+ specification.

One property = one `checks/<ID>.py` with `def run(c: Check)`.  See DESIGN.md.
"""
import json, os, re, subprocess, sys, time, shutil, hashlib, threading, random, select, signal
from concurrent.futures import ThreadPoolExecutor

import vbuild
from vbuild import ROOT, BUILD, REPO

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(ROOT, "spec")
FINDINGS = os.path.join(ROOT, "known_findings.txt")


class CheckError(Exception):
    """The check itself could not do its job (never a verdict)."""


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"), ensure_ascii=True)


def load_findings(prop):
    """Lines `finding: property=<id> key=<token> <text>`; `fixed:` lines suppress nothing."""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class TLCResult:
    pass


class Check:
    def __init__(self, prop, thorough=False):
        self.prop = prop
        self.thorough = thorough or os.environ.get("VERIF_TIER") == "thorough"
        self.tier = "thorough" if self.thorough else "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.states = 0          # distinct spec states explored
        self.transitions = 0     # spec transitions taken
        self.traces = 0          # recorded executions accepted or judged by the spec
        self.events = 0          # implementation steps judged
        self.actions = {}        # implementation steps per operation
        self.samples = []
        self.rejects = []        # list of dict(scenario, index, why)
        self.assumptions = []
        self.extra = {}
        self.level = "model_checking"
        self.known_seen = {}
        self.findings = load_findings(prop)
        self._n = 0
        self.log(f"tier={self.tier} seed={self.seed}")

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=4, timeout=600, args=(), mem="3g", name=None):
        self._n += 1
        name = name or f"{module}-{self._n}"
        d = os.path.join(self.work, "tlc-" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, workers)}", f"-Xmx{mem}", "-Xss64m",
               f"-Djava.io.tmpdir={d}", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-deadlock", "-config", "M.cfg", *args, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out after {timeout}s on {module}")
        out = p.stdout
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(out)
        r = TLCResult()
        r.rc, r.out, r.dir = p.returncode, out, d
        m = re.findall(r"(\d+) states generated[^\n]*?, (\d+) distinct states found", out)
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return r

    @staticmethod
    def cfg(init="Init", next="Next", invariants=(), constants=None, constraint=None, spec=None,
            properties=(), view=None, postcondition=None):
        L = []
        if spec:
            L.append(f"SPECIFICATION {spec}")
        else:
            L += [f"INIT {init}", f"NEXT {next}"]
        for k, v in (constants or {}).items():
            L.append(f"CONSTANT {k} = {v}")
        for i in invariants:
            L.append(f"INVARIANT {i}")
        for i in properties:
            L.append(f"PROPERTY {i}")
        if constraint:
            L.append(f"CONSTRAINT {constraint}")
        if view:
            L.append(f"VIEW {view}")
        if postcondition:
            L.append(f"POSTCONDITION {postcondition}")
        L.append("CHECK_DEADLOCK FALSE")
        return "\n".join(L) + "\n"

    def model_check(self, module, cfg, min_states=2, **kw):
        """Exhaustive check of the specification itself; a failure is an error of the spec."""
        kw.setdefault("workers", 6)
        r = self.tlc(module, cfg, args=("-coverage", "60"), **kw)
        if r.rc != 0:
            raise CheckError(f"specification {module} does not satisfy its own properties (rc={r.rc}):\n" + r.out[max(0, r.out.find("Error:")):][:3000])
        if r.distinct < min_states:
            raise CheckError(f"specification {module}: only {r.distinct} states")
        self.states += r.distinct
        self.transitions += r.generated
        # actions never taken in the bounded model would make the result vacuous
        dead = re.findall(r"<(\w+) line [^>]*>: 0:0\s*$", r.out, re.M)
        if dead:
            raise CheckError(f"specification {module}: actions never taken: {sorted(set(dead))}")
        self.log(f"model {module}: {r.distinct} distinct states, {r.generated} transitions")
        return r

    def generate(self, module, cfg, simulate=None, depth=None, limit=None, **kw):
        """Behaviours of the specification, printed by the spec as "BEH|json"."""
        args = []
        if simulate:
            args += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(self.seed * 7919 + 17)]
            kw["workers"] = 1
        r = self.tlc(module, cfg, args=args, **kw)
        if r.rc != 0:
            raise CheckError(f"behaviour generation with {module} failed (rc={r.rc}):\n" + r.out[-3000:])
        res, seen = [], set()
        for m in re.finditer(r'^"BEH\|(.*)"$', r.out, re.M):
            s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
            if s not in seen:
                seen.add(s)
                res.append(json.loads(s))
        if not simulate:
            self.states += r.distinct
            self.transitions += r.generated
        else:
            m = re.findall(r"(\d+) states generated|number of states generated: (\d+)", r.out.lower())
            if m:
                self.transitions += int([x for x in m[-1] if x][0])
        if not res:
            raise CheckError(f"{module} generated no behaviour:\n" + r.out[-2000:])
        if limit and len(res) > limit:
            res = self.rng.sample(res, limit)
        self.log(f"{module}: {len(res)} behaviours generated from the specification")
        return res

    def build(self, *a, **kw):
        """Build the harness while the specification is being explored; `.result()` waits for it."""
        ex = ThreadPoolExecutor(1)
        f = ex.submit(vbuild.build, *a, **kw)
        ex.shutdown(wait=False)
        return f

    # ------------------------------------------------------------- execution
    def execute(self, cmd, scenarios, hang=20, env=None, cwd=None, shards=None, max_crashes=12):
        """Run scenarios (dict with 'ops') through a harness.  Protocol: one scenario per input line,
        the harness prints `B <n>`, then one line of JSON per op, then `E <n>`.  A process that dies or
        stalls turns into a recorded `crash`/`hang` event of the op that was running."""
        shards = shards or min(8, max(1, len(scenarios) // 50))
        parts = [list(range(k, len(scenarios), shards)) for k in range(shards)]
        results = [None] * len(scenarios)
        state = {"crashes": 0}
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e.update(env or {})

        def work(k):
            todo = parts[k]
            while todo:
                if state["crashes"] > max_crashes:
                    return
                done = self._one_process(cmd, [(n, scenarios[n]) for n in todo], results, hang, e, cwd, state, k)
                todo = todo[done:]

        with ThreadPoolExecutor(shards) as ex:
            list(ex.map(work, range(shards)))
        out = []
        for n, sc in enumerate(scenarios):
            if results[n] is not None:
                out.append(dict(id=n, ops=sc["ops"], meta=sc.get("meta", {}), ev=results[n], **({"cfg": sc["cfg"]} if "cfg" in sc else {})))
        return out

    def _one_process(self, cmd, items, results, hang, env, cwd, state, shard):
        err_path = os.path.join(self.work, f"stderr-{shard}-{len(items)}.txt")
        in_path = os.path.join(self.work, f"in-{shard}.ndjson")
        with open(in_path, "w") as f:
            for n, sc in items:
                f.write(json.dumps(dict(id=n, ops=sc["ops"], **({"cfg": sc["cfg"]} if "cfg" in sc else {}))) + "\n")
        with open(in_path) as fin, open(err_path, "w") as ferr:
            p = subprocess.Popen(cmd, stdin=fin, stdout=subprocess.PIPE, stderr=ferr, env=env, cwd=cwd or self.work,
                                 start_new_session=True)
            os.set_blocking(p.stdout.fileno(), False)
            buf = b""
            pos = 0          # index of the scenario being run
            cur = None
            why = None
            last = time.time()
            eof = False
            while not eof:
                rd, _, _ = select.select([p.stdout], [], [], 1.0)
                if rd:
                    chunk = p.stdout.read(1 << 20)
                    if chunk == b"":
                        eof = True
                    elif chunk:
                        last = time.time()
                        buf += chunk
                elif time.time() - last > hang:
                    why = "hang"
                    os.killpg(p.pid, signal.SIGKILL)
                    eof = True
                lines = buf.split(b"\n")
                buf = lines.pop()
                for ln in lines:
                    s = ln.decode("utf-8", "replace")
                    if s.startswith("B "):
                        cur = []
                    elif s.startswith("E "):
                        n, sc = items[pos]
                        if len(cur) != len(sc["ops"]):
                            raise CheckError(f"harness answered {len(cur)} of {len(sc['ops'])} ops")
                        results[n] = [dict(o, r=r) for o, r in zip(sc["ops"], cur)]
                        cur = None
                        pos += 1
                    elif s.startswith("R "):
                        try:
                            cur.append(json.loads(s[2:]))
                        except Exception as ex:
                            raise CheckError(f"harness output not JSON: {s[:300]}: {ex}")
                    # anything else is chatter of the code under test
            p.wait()
        if pos >= len(items):
            return len(items)
        err = open(err_path, errors="replace").read()
        if why is None and (p.returncode == 97 or cur is None):
            raise CheckError(f"harness {cmd[0]} ended with {p.returncode} outside of a scenario:\n" + err[-3000:])
        n, sc = items[pos]
        why = why or "crash"
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*|[Aa]ssert[^\n]*)", err)
        detail = m.group(1)[:200] if m else f"exit status {p.returncode}"
        detail = re.sub(r"0x[0-9a-f]+", "0x?", detail)
        evs = [dict(o, r=r) for o, r in zip(sc["ops"], cur)]
        at = sc["ops"][len(cur)] if len(cur) < len(sc["ops"]) else {"op": "end"}
        evs.append({"op": why, "at": canon(at)[:400], "what": detail})
        results[n] = evs
        state["crashes"] += 1
        return pos + 1

    # ------------------------------------------------------------ validation
    def validate(self, module, recs, constants=None, chunk=None, timeout=600, par=4, workers=2, mem="3g", count=True):
        """Judge recorded executions with the trace specification.  Each rejected event is printed by the
        spec as "REJECT|scenario|index|why"; every event must have been consumed otherwise."""
        if not recs:
            raise CheckError("nothing recorded to validate")
        cfg = self.cfg(init="TInit", next="TNext", constants=constants)
        total = sum(len(r["ev"]) + 1 for r in recs)
        chunk = chunk or max(1, min(len(recs), (len(recs) + par - 1) // par))
        parts = [recs[i:i + chunk] for i in range(0, len(recs), chunk)]
        rej = []

        def one(k):
            part, odd = parts[k], []
            while True:
                path = os.path.join(self.work, f"trace-{module}-{self._n}-{k}.ndjson")
                with open(path, "w") as f:
                    for r in part:
                        f.write(json.dumps(dict(id=r["id"], ev=r["ev"], **({"meta": r["meta"]} if r.get("meta") else {}), **({"cfg": r["cfg"]} if "cfg" in r else {})), ensure_ascii=True) + "\n")
                res = self.tlc(module, cfg, env={"TRACE": path}, workers=workers, timeout=timeout, mem=mem, name=f"{module}-v{k}-{self._n}-{id(part)}")
                if res.rc == 75:
                    # a recorded result that is not even of the kind the specification compares it with
                    # (a number where a text belongs): TLC stops in the state before that event
                    tail = res.out[res.out.rindex("Error: The behavior up to this point is"):] if "Error: The behavior up to this point is" in res.out else ""
                    s, i = re.findall(r"^/\\ s = (\d+)$", tail, re.M), re.findall(r"^/\\ i = (\d+)$", tail, re.M)
                    msg = re.search(r"^: (Attempted .*?)$", res.out, re.M)
                    if s and i and msg:
                        j = int(s[-1]) - 1
                        odd.append((part[j], int(i[-1]) + 1, "outside the specification: " + msg.group(1)))
                        part = part[:j] + part[j + 1:]
                        shutil.rmtree(res.dir, ignore_errors=True)
                        if len(odd) < 6 and part:
                            continue
                        return res, odd
                break
            if res.rc != 0:
                raise CheckError(f"trace specification {module} failed (rc={res.rc}):\n" + res.out[-4000:])
            mine = {}
            for m in re.finditer(r'^"REJECT\|(\d+)\|(\d+)\|(.*)"$', res.out, re.M):
                mine[int(m.group(1))] = (int(m.group(2)), m.group(3))
            expect = 0
            for j, r in enumerate(part):
                expect += (mine[j + 1][0] + 1) if (j + 1) in mine else len(r["ev"]) + 1
            if res.distinct != expect:
                raise CheckError(f"trace specification {module}: {res.distinct} states, expected {expect}:\n" + res.out[-3000:])
            shutil.rmtree(res.dir, ignore_errors=True)
            os.unlink(path)
            return res, odd + [(part[j - 1], idx, why) for j, (idx, why) in sorted(mine.items())]

        with ThreadPoolExecutor(par) as ex:
            for res, mine in ex.map(one, range(len(parts))):
                rej += mine
                if count:
                    self.states += res.distinct
                    self.transitions += res.generated
        if count:
            self.traces += len(recs)
            for r in recs:
                self.events += len(r["ev"])
                for ev in r["ev"]:
                    self.actions[ev["op"]] = self.actions.get(ev["op"], 0) + 1
            for r in recs[:1] + recs[len(recs) // 2:len(recs) // 2 + 1]:
                if len(self.samples) < 6:
                    s = json.dumps(r["ev"][:4])
                    self.samples.append(s if len(s) < 1500 else s[:1500] + "...")
            self.log(f"{module}: {len(recs)} executions, {total - len(recs)} steps judged, {len(rej)} rejected")
        return rej

    def replay(self, module, cmd, scenarios, key=None, constants=None, hang=20, confirm=True, par=4, workers=2,
               timeout=600, shards=None, env=None, cwd=None, max_report=40):
        """execute + validate + confirm; collects rejections on the check."""
        recs = self.execute(cmd, scenarios, hang=hang, shards=shards, env=env, cwd=cwd)
        self.log(f"{len(recs)} of {len(scenarios)} scenarios executed")
        rej = self.validate(module, recs, constants=constants, par=par, workers=workers, timeout=timeout)
        if rej and confirm:
            # keep the shortest ones and re-run them on their own; only repeatable rejections are reported
            fresh, listed = [], []
            for r, idx, why in rej:
                k = key(r, idx, why) if key else None
                (listed if k in self.findings else fresh).append((r, idx, why))
            for r, idx, why in listed:
                self.known_seen.setdefault(key(r, idx, why), (r, idx, why))
            fresh.sort(key=lambda t: len(canon(t[0]["ops"])))
            fresh = fresh[:max_report]
            if fresh:
                again = self.execute(cmd, [{k: r[k] for k in ("ops", "meta", "cfg") if k in r} for r, _, _ in fresh], hang=hang, shards=min(4, len(fresh)), env=env, cwd=cwd, max_crashes=100)
                rej2 = self.validate(module, again, constants=constants, par=1, workers=workers, count=False)
                hit = {r["id"]: (idx, why) for r, idx, why in rej2}
                for n, (r, idx, why) in enumerate(fresh):
                    if n in hit:
                        self.rejects.append(dict(module=module, scenario=r["ops"], meta=r.get("meta", {}), cfg=r.get("cfg"), index=hit[n][0], why=hit[n][1],
                                                 recorded=again[n]["ev"][:hit[n][0]], cmd=cmd))
                    else:
                        self.log(f"rejection of scenario {r['id']} did not repeat: {why[:200]}")
        elif rej:
            for r, idx, why in rej:
                self.rejects.append(dict(module=module, scenario=r["ops"], index=idx, why=why, recorded=r["ev"][:idx], cmd=cmd))
        return recs

    def binding_selftest(self, module, recs, mutate, constants=None, n=5):
        """Corrupt a recorded field: the trace specification must notice.  Says nothing about a broken tree,
        where the corruption may well repair a rejected execution."""
        if self.rejects:
            return
        bad = []
        for r in recs:
            r2 = json.loads(json.dumps(r))
            if mutate(r2):
                bad.append(r2)
            if len(bad) >= n:
                break
        if not bad:
            raise CheckError("no recorded execution could be corrupted")
        rej = self.validate(module, bad, constants=constants, par=1, workers=1, count=False)
        if len(rej) != len(bad):
            raise CheckError(f"{module} accepted {len(bad) - len(rej)} of {len(bad)} corrupted executions")
        self.extra["corrupted_executions_rejected"] = self.extra.get("corrupted_executions_rejected", 0) + len(rej)

    # --------------------------------------------------------------- verdict
    def finish(self):
        viol = 0
        ev_dir = os.path.join(ROOT, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        rp = os.path.join(ev_dir, f"{self.prop}.replay.json")
        if os.path.exists(rp):
            os.unlink(rp)
        for k, (r, idx, why) in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.prop} {self.findings[k]}")
        if self.rejects:
            viol = len(self.rejects)
            with open(rp, "w") as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, violations=self.rejects[:20]), f, indent=1)
            for r in self.rejects[:5]:
                self.log("rejected at step", r["index"], "of", canon(r["scenario"])[:600])
                self.log("   last recorded:", canon(r["recorded"][-1:])[:600])
                self.log("   spec says:", r["why"][:800])
            print(f"VIOLATION property={self.prop} replay={rp}", flush=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   implementation_steps_judged=self.events, steps_per_operation=self.actions, samples=self.samples or ["none"], **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=viol)
        with open(os.path.join(ev_dir, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("violations:", viol)
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if viol else 0


def main():
    import importlib
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv
    sys.path.insert(0, os.path.join(ROOT, "checks"))
    c = Check(prop, thorough)
    try:
        mod = importlib.import_module(prop)
        mod.run(c)
        rc = c.finish()
    except (CheckError, vbuild.BuildError, subprocess.TimeoutExpired) as ex:
        print(f"CHECK-ERROR property={prop}: {ex}", flush=True)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        print(f"CHECK-ERROR property={prop}", flush=True)
        rc = 2
    sys.exit(rc)
