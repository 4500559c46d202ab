------------------------------ MODULE WorkflowMC ------------------------------
\* The runner as a machine that settles one task at a time in any order the
\* dependencies allow, with failures before and after the output is written.
EXTENDS Workflow
CONSTANTS N, Depth, EmitMode, Free, MaxClock, KindSet
VARIABLES g, st, job, hist, last, good, bound
\* job = [on, target, cfg, settled, ev];  last: files at the last run;  good[t]: what the
\* inputs of t were when it last completed
vars == <<g, st, job, hist, last, good, bound>>
Cfgs == {[dep |-> TRUE, unch |-> FALSE, x |-> 0]} \cup IF Free THEN {[dep |-> TRUE, unch |-> FALSE, x |-> 1], [dep |-> TRUE, unch |-> TRUE, x |-> 0], [dep |-> FALSE, unch |-> FALSE, x |-> 0]} ELSE {}
Off == [on |-> FALSE, target |-> 0, cfg |-> 0, settled |-> {}, ev |-> <<>>]
Graphs == {[n |-> N, deps |-> d, calls |-> [t \in 1..N |-> <<>>], kind |-> k] :
             d \in {<< <<>>, <<1>>, <<2>> >>, << <<>>, <<1>>, <<1, 2>> >>, << <<>>, <<>>, <<1, 2>> >>, << <<>>, <<1>>, <<>> >>},
             k \in [1..N -> KindSet]}
Cut(h, e) == IF EmitMode = "none" THEN <<>> ELSE Append(h, e)

Init == /\ g \in Graphs /\ st = State0(N) /\ job = Off /\ hist = <<>> /\ last = <<>>
        /\ good = [t \in 1..N |-> <<>>] /\ bound = 0
Start == /\ ~job.on /\ bound < Depth /\ st.clock < MaxClock
         /\ \E t \in 1..N, c \in Cfgs :
              /\ st' = Tick(st) /\ last' = Tick(st)
              /\ job' = [on |-> TRUE, target |-> t, cfg |-> c, settled |-> {}, ev |-> <<>>]
              /\ UNCHANGED <<g, hist, good>> /\ bound' = bound + 1
Close1(t) == Close(g, {t})
Todo == IF job.cfg.dep THEN Close1(job.target) ELSE {job.target}
Finish(h, j) == hist' = Cut(h, [op |-> "run", t |-> job.target, cfg |-> job.cfg, fail |-> j])
Settle == /\ job.on
          /\ \E t \in Todo \ job.settled :
               /\ job.cfg.dep => Rng(g.deps[t]) \subseteq job.settled
               /\ IF job.cfg.dep /\ (<<t, job.cfg>> \in st.yes \/ ~Wants(g, st, t, job.cfg))
                  THEN /\ st' = Done(st, t, job.cfg)
                       /\ job' = [job EXCEPT !.settled = @ \cup {t}]
                       /\ UNCHANGED good
                  ELSE /\ st' = IF job.cfg.dep THEN Done(Stamped(g, Wrote(g, st, t), t, job.cfg), t, job.cfg) ELSE Wrote(g, st, t)
                       /\ job' = [job EXCEPT !.settled = @ \cup {t}, !.ev = @ \o << <<"s", t>>, <<"w", t>>, <<"e", t>> >>]
                       /\ good' = [good EXCEPT ![t] = <<Ins(g, st, t), st.salt[t]>>]
          /\ UNCHANGED <<g, hist, last, bound>>
\* a body fails before or after writing its output: the run is over
Fail == /\ job.on
        /\ \E t \in Todo \ job.settled, w \in BOOLEAN :
             /\ job.cfg.dep => Rng(g.deps[t]) \subseteq job.settled /\ <<t, job.cfg>> \notin st.yes /\ Wants(g, st, t, job.cfg)
             /\ st' = IF w THEN Wrote(g, st, t) ELSE st
             /\ job' = [Off EXCEPT !.target = job.target, !.cfg = job.cfg, !.ev = job.ev \o (IF w THEN << <<"s", t>>, <<"w", t>>, <<"f", t>> >> ELSE << <<"s", t>>, <<"f", t>> >>)]
             /\ Finish(hist, << <<t, w>> >>)
             \* an output written by a failed body without a stamp hides that the task is not done
             /\ good' = IF w /\ g.kind[t] = "io" THEN [good EXCEPT ![t] = <<Ins(g, st, t), st.salt[t]>>] ELSE good
             /\ UNCHANGED <<g, last, bound>>
End == /\ job.on /\ Todo = job.settled
       /\ job' = [job EXCEPT !.on = FALSE]
       /\ Finish(hist, <<>>)
       /\ UNCHANGED <<g, st, last, good, bound>>
Other == /\ ~job.on /\ bound < Depth /\ st.clock < MaxClock
         /\ \E t \in 1..N, w \in {"src", "noout", "nostamp", "salt", "session"} \cup IF Free THEN {"src2", "nosrc2"} ELSE {} :
              /\ w = "session" => t = 1
              /\ w \in {"noout"} => HasOut(g.kind[t]) /\ st.out[t] # 0
              /\ w = "nostamp" => st.stime[t] # 0
              /\ w \in {"src", "src2"} => HasIn(g.kind[t])
              /\ w = "nosrc2" => st.src2[t] # 0
              /\ w = "salt" => g.kind[t] \in {"tmpc", "only"}
              /\ st' = Touch(st, w, t) /\ job' = Off
              /\ hist' = Cut(hist, [op |-> "touch", what |-> w, t |-> t])
         /\ UNCHANGED <<g, last, good>> /\ bound' = bound + 1
Next == Start \/ Settle \/ Fail \/ End \/ Other
Emit == (EmitMode = "all" /\ ~job.on /\ hist # <<>>) => PrintT("BEH|" \o ToJson([g |-> g, ops |-> hist]))
View == <<g, st, job, last, good, bound>>
EmitInv == ~(EmitMode = "depth" /\ bound = Depth /\ ~job.on) \/ PrintT("BEH|" \o ToJson([g |-> g, ops |-> hist]))

\* the acceptor used on recordings accepts everything the machine does, and computes its state
Finished == ~job.on /\ job.target # 0
Agrees == Finished =>
    LET failed == Sel(job.ev, "f") # {}
        a == After(g, last, job.target, job.cfg, job.ev, failed)
    IN /\ RunOk(g, last, job.target, job.cfg, job.ev, failed)
       /\ a.out = st.out /\ a.stime = st.stime /\ a.scont = st.scont
       /\ a.yes \subseteq st.yes /\ st.yes \subseteq a.yes \cup a.maybe
\* After a successful run in which nothing was remembered from before, everything needed is
\* up to date with what it reads.
UpToDate == (Finished /\ Sel(job.ev, "f") = {} /\ job.cfg.dep /\ ~job.cfg.unch /\ last.yes = {}) =>
    \A t \in Close(g, {job.target}) : g.kind[t] # "none" => ~Stale(g, st, t, job.cfg)
\* a completed task read the inputs that are there now
Honest == (Finished /\ Sel(job.ev, "f") = {} /\ job.cfg.dep /\ ~job.cfg.unch /\ last.yes = {}) =>
    \A t \in Close(g, {job.target}) : HasIn(g.kind[t]) => good[t] # <<>> /\ MaxOf(Rng(good[t][1])) = MaxOf(Rng(Ins(g, st, t)))
\* no body starts twice in one run, nothing fails silently
Once == \A t \in 1..N : Cardinality(At(job.ev, "s", t)) <= 1
===============================================================================
