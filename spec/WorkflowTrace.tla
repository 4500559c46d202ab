---------------------------- MODULE WorkflowTrace ----------------------------
EXTENDS Workflow, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, dead, st
RECURSIVE Flatten(_)
Flatten(t) == IF t.k \in {"str", "path"} THEN <<t.v>>
              ELSE LET f[j \in 0..Len(t.c)] == IF j = 0 THEN <<>> ELSE f[j - 1] \o Flatten(t.c[j]) IN f[Len(t.c)]
Step(g, e) ==
    CASE e.op = "run" ->
           LET t0 == Tick(st) IN
           IF e.r.v \notin {"ok", "fail"} THEN [ok |-> FALSE, st |-> st, why |-> e.r.v]
           ELSE IF e.r.stray # 0 THEN [ok |-> FALSE, st |-> st, why |-> "stray file"]
           ELSE IF RunOk(g, t0, e.t, e.cfg, e.r.ev, e.r.v = "fail")
           THEN [ok |-> TRUE, st |-> After(g, t0, e.t, e.cfg, e.r.ev, e.r.v = "fail"), why |-> ""]
           ELSE [ok |-> FALSE, st |-> st, why |-> ToString([t \in 1..g.n |-> Verdict(g, t0, Apply(g, t0, e.r.ev, 1, e.cfg), t, e.cfg)])]
      [] e.op = "touch" -> [ok |-> e.r.v = "ok", st |-> Touch(st, e.what, e.t), why |-> "touch"]
      [] e.op = "need"  -> LET w == NeedRun(e.ins, e.outs, e.stamp, e.content) IN [ok |-> e.r.v = (IF w THEN "run" ELSE "skip"), st |-> st, why |-> ToString(w)]
      [] e.op = "paths" -> [ok |-> e.r.v = "ok" /\ e.r.x = Flatten(e.p), st |-> st, why |-> ToString(Flatten(e.p))]
      [] OTHER -> [ok |-> FALSE, st |-> st, why |-> ToString(e)]
TInit == s \in 1..Len(Tr) /\ i = 0 /\ dead = FALSE /\ st = State0(Tr[s].cfg.g.n)
TNext == /\ ~dead /\ i < Len(Tr[s].ev) /\ i' = i + 1 /\ s' = s
         /\ LET x == Step(Tr[s].cfg.g, Tr[s].ev[i + 1])
            IN /\ st' = x.st
               /\ IF x.ok THEN dead' = FALSE ELSE dead' = TRUE /\ PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o x.why)
================================================================================
