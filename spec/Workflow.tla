------------------------------- MODULE Workflow -------------------------------
\* The task runner.  Tasks are 1..n; dependencies and the tasks a body runs by
\* itself have smaller numbers.  Every task may own a source file, a second
\* source file, an output and a stamp; times are values of a logical clock and 0
\* means that the file does not exist.
\*   g  = [n, deps, calls, kind]   kind of task t decides which files it declares
\*   st = [src, src2, out, stime, scont, salt, clock, yes, maybe]
\* yes/maybe: tasks recorded (or possibly recorded) as done in this session, as
\* <<task, configuration>>.
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Kinds    == {"none", "io", "tmp", "tmpc", "tmpo", "only", "onlys"}
HasOut(k)   == k \in {"io", "tmpo"}
HasStamp(k) == k \in {"tmp", "tmpc", "tmpo", "only", "onlys"}
HasIn(k)    == k \in {"io", "tmp", "tmpc", "tmpo"}
Rng(q)   == {q[k] : k \in 1..Len(q)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

State0(n) == [src |-> [t \in 1..n |-> 1], src2 |-> [t \in 1..n |-> 0], out |-> [t \in 1..n |-> 0],
              stime |-> [t \in 1..n |-> 0], scont |-> [t \in 1..n |-> 0], salt |-> [t \in 1..n |-> 0],
              clock |-> 1, yes |-> {}, maybe |-> {}]

\* what the stamp of a task has to contain; configurations are [dep, unch, x]
Content(g, st, t, cfg) == IF g.kind[t] \in {"tmpc", "only"} THEN 10 + 2 * st.salt[t] + cfg.x ELSE 1

\* The rule by itself: ins, outs are file times; stamp = <<time, content>> or <<>>
NeedRun(ins, outs, stamp, content) ==
    LET all == outs \o (IF stamp = <<>> THEN <<>> ELSE <<stamp[1]>>)
        newer == ins # <<>> /\ (0 \in Rng(all) \/ MinOf(Rng(all)) < MaxOf(Rng(ins)))
    IN newer \/ (stamp # <<>> /\ (stamp[1] = 0 \/ stamp[2] # content))

Ins(g, st, t) ==
    LET k == g.kind[t]
        ofdeps == LET withOut(d) == HasOut(g.kind[d]) IN SelectSeq(g.deps[t], withOut)
    IN IF ~HasIn(k) THEN <<>> ELSE <<st.src[t], st.src2[t]>> \o [j \in 1..Len(ofdeps) |-> st.out[ofdeps[j]]]
Stale(g, st, t, cfg) ==
    LET k == g.kind[t] IN
    k = "none" \/ NeedRun(Ins(g, st, t), IF HasOut(k) THEN <<st.out[t]>> ELSE <<>>,
                          IF HasStamp(k) THEN <<st.stime[t], st.scont[t]>> ELSE <<>>, Content(g, st, t, cfg))

Wants(g, st, t, cfg) == cfg.unch \/ Stale(g, st, t, cfg)
RECURSIVE Close(_, _)
Close(g, S) == LET T == S \cup UNION {Rng(g.deps[t]) : t \in S} IN IF T = S THEN S ELSE Close(g, T)

\* effects of a body that got as far as writing its output, and of a success
Wrote(g, st, t)     == IF HasOut(g.kind[t]) THEN [st EXCEPT !.out[t] = st.clock] ELSE st
Stamped(g, st, t, cfg) == IF HasStamp(g.kind[t]) /\ ~cfg.unch
                          THEN [st EXCEPT !.stime[t] = st.clock, !.scont[t] = Content(g, st, t, cfg)] ELSE st
Done(st, t, cfg)    == [st EXCEPT !.yes = @ \cup {<<t, cfg>>}, !.maybe = @ \ {<<t, cfg>>}]

-------------------------------------------------------------------------------
\* Judging one recorded run.  ev = sequence of <<what, task>>: "s" body started,
\* "w" output written, "e" body finished, "f" body failed.  Tasks that were left
\* alone do not show up, the order among independent tasks is free.
At(ev, what, t) == {k \in 1..Len(ev) : ev[k][1] = what /\ ev[k][2] = t}
Sel(ev, what)   == {ev[k][2] : k \in {j \in 1..Len(ev) : ev[j][1] = what}}

\* files as they are when the run is over; the order of writes does not matter to
\* the outcome because the clock stands still during a run
RECURSIVE Apply(_, _, _, _, _)
Apply(g, st, ev, k, cfg) ==
    IF k > Len(ev) THEN st
    ELSE LET t == ev[k][2] IN
         Apply(g, CASE ev[k][1] = "w" -> Wrote(g, st, t)
                    [] ev[k][1] = "e" /\ cfg.dep -> Done(Stamped(g, st, t, cfg), t, cfg)
                    [] OTHER -> st, ev, k + 1, cfg)

\* a task is sure to run / sure not to run / unknown, given the files its
\* dependencies have when they are settled
Verdict(g, st, fin, t, cfg) ==
    \* own files as before the run, files of others as after it
    LET v == [st EXCEPT !.out = [d \in 1..g.n |-> IF d = t THEN st.out[d] ELSE fin.out[d]]]
    IN IF <<t, cfg>> \in st.yes THEN "no"
       ELSE IF ~Wants(g, v, t, cfg) THEN "fresh"
       ELSE IF <<t, cfg>> \in st.maybe THEN "either" ELSE "run"

RECURSIVE Need(_, _, _)
Need(g, S, started) ==
    LET T == Close(g, S) \cup UNION {Rng(g.calls[t]) : t \in S \cap started} IN IF T = S THEN S ELSE Need(g, T, started)

RunOk(g, st, target, cfg, ev, failed) ==
    IF ~cfg.dep THEN
         /\ Sel(ev, "s") \subseteq {target} \cup Rng(g.calls[target])
         /\ Len(ev) >= 1 /\ ev[1] = <<"s", target>>
         /\ \A c \in Rng(g.calls[target]) : Cardinality(At(ev, "s", c)) <= 1
         /\ failed = (Sel(ev, "f") # {})
         /\ ~failed => Sel(ev, "s") = {target} \cup Rng(g.calls[target]) /\ Sel(ev, "e") = Sel(ev, "s")
    ELSE
    LET fin     == Apply(g, st, ev, 1, cfg)
        started == Sel(ev, "s")
        ended   == Sel(ev, "e")
        need    == Need(g, {target}, started)
        V(t)    == Verdict(g, st, fin, t, cfg)
        settled(t, k) == \/ \E j \in At(ev, "e", t) : j < k
                         \/ At(ev, "s", t) = {} /\ V(t) # "run"
    IN /\ failed = (Sel(ev, "f") # {})
       /\ \A t \in started : Cardinality(At(ev, "s", t)) = 1
       /\ started \subseteq need
       /\ \A t \in started : V(t) \in {"run", "either"}
       \* dependencies are settled before a task starts
       /\ \A t \in started : \A d \in Rng(g.deps[t]) : settled(d, MinOf(At(ev, "s", t)))
       \* what the body asked for is settled before it is over
       /\ \A t \in ended : \A d \in Rng(g.calls[t]) : settled(d, MinOf(At(ev, "e", t)))
       /\ ~failed => started = ended /\ \A t \in need : V(t) = "run" => t \in started

\* the state after it
After(g, st, target, cfg, ev, failed) ==
    LET fin == Apply(g, st, ev, 1, cfg) IN
    IF ~cfg.dep THEN fin
    ELSE LET started == Sel(ev, "s")
             need == Need(g, {target}, started)
             left == need \ started
             V(t) == Verdict(g, st, fin, t, cfg)
             Key(S) == {<<t, cfg>> : t \in S}
         IN IF ~failed THEN [fin EXCEPT !.yes = @ \cup Key(need), !.maybe = @ \ Key(need)]
            ELSE LET sure == {t \in left : \E u \in started : t \in Close(g, Rng(g.deps[u]))}
                     perhaps == {t \in left \ sure : V(t) # "run" /\ <<t, cfg>> \notin fin.yes
                                      /\ \A d \in Close(g, Rng(g.deps[t])) : d \in Sel(ev, "e") \/ (d \notin started /\ V(d) # "run")}
                 IN [fin EXCEPT !.yes = @ \cup Key(sure), !.maybe = (@ \cup Key(perhaps)) \ Key(sure)]

\* what happens between runs
Touch(st, what, t) ==
    LET k == st.clock + 1 IN
    CASE what = "src"     -> [st EXCEPT !.src[t] = k, !.clock = k]
      [] what = "src2"    -> [st EXCEPT !.src2[t] = k, !.clock = k]
      [] what = "nosrc2"  -> [st EXCEPT !.src2[t] = 0]
      [] what = "noout"   -> [st EXCEPT !.out[t] = 0]
      [] what = "nostamp" -> [st EXCEPT !.stime[t] = 0, !.scont[t] = 0]
      [] what = "salt"    -> [st EXCEPT !.salt[t] = 1 - @]
      [] what = "session" -> [st EXCEPT !.yes = {}, !.maybe = {}]
Tick(st) == [st EXCEPT !.clock = @ + 1]
===============================================================================
