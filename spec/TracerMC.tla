------------------------------- MODULE TracerMC -------------------------------
\* Threads that open and close scopes; a call is a sequence of small steps: it begins, reads the
\* clock, waits for the lock, acts, releases, ends.
EXTENDS Tracer
CONSTANTS NT, MaxCalls, EmitMode
VARIABLES pc, stack, log, lock, clock, seq, calls, cur, plan
vars == <<pc, stack, log, lock, clock, seq, calls, cur, plan>>
\* cur[t]: index in calls of the running call
Init == /\ pc = [t \in 1..NT |-> "idle"] /\ stack = [t \in 1..NT |-> <<>>] /\ log = <<>> /\ lock = 0
        /\ clock = 1 /\ seq = 0 /\ calls = <<>> /\ cur = [t \in 1..NT |-> 0] /\ plan = <<>>
Mine(t) == Cardinality({k \in 1..Len(calls) : calls[k].th = t})
Saw(t)  == plan' = Append(plan, t - 1)
Name(t) == "n" \o ToString(t) \o ToString(Mine(t))
Begin(t, k) == /\ pc[t] = "idle" /\ Mine(t) < MaxCalls
               /\ seq' = seq + 1 /\ pc' = [pc EXCEPT ![t] = IF k = "pop" THEN "lock" ELSE "read"]
               /\ calls' = Append(calls, [th |-> t, k |-> k, n |-> Name(t), a |-> seq + 1, b |-> 0, reads |-> <<>>, v |-> "ok", g |-> 0, site |-> NoSite])
               /\ cur' = [cur EXCEPT ![t] = Len(calls) + 1] /\ Saw(t) /\ UNCHANGED <<stack, log, lock, clock>>
Read(t) == /\ pc[t] = "read" /\ clock' = clock + 1
           /\ calls' = [calls EXCEPT ![cur[t]].reads = Append(@, clock)]
           /\ pc' = [pc EXCEPT ![t] = "lock"] /\ Saw(t) /\ UNCHANGED <<stack, log, lock, seq, cur>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t
           /\ pc' = [pc EXCEPT ![t] = "act"] /\ Saw(t) /\ UNCHANGED <<stack, log, clock, seq, cur, calls>>
Entry(t, u, c, ts, dur, ph) == [n |-> u.n, th |-> t, pid |-> TRUE, ph |-> ph, cat |-> "c" \o u.n, ts |-> ts, dur |-> dur, args |-> ArgsOf(u), site |-> u.site]
Act(t) == /\ pc[t] = "act" /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ Saw(t)
          /\ LET c == calls[cur[t]] IN
             CASE c.k = "push" -> stack' = [stack EXCEPT ![t] = Append(@, c)] /\ UNCHANGED <<log, clock, calls>>
               [] c.k = "meta" -> /\ log' = Append(log, [Entry(t, c, c, c.reads[1], 0, "M") EXCEPT !.n = "process_name", !.args = << <<"name", c.n>> >>])
                                  /\ UNCHANGED <<stack, clock, calls>>
               [] c.k = "pop" /\ stack[t] = <<>> -> calls' = [calls EXCEPT ![cur[t]].v = "none"] /\ UNCHANGED <<stack, log, clock>>
               [] OTHER -> LET u == stack[t][Len(stack[t])] IN
                           /\ calls' = [calls EXCEPT ![cur[t]].reads = Append(@, clock)] /\ clock' = clock + 1
                           /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
                           /\ log' = Append(log, Entry(t, u, c, u.reads[1], clock - u.reads[1], "X"))
          /\ UNCHANGED <<lock, seq, cur>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "end"] /\ Saw(t)
             /\ UNCHANGED <<stack, log, clock, seq, cur, calls>>
Return(t) == /\ pc[t] = "end" /\ seq' = seq + 1 /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ calls' = [calls EXCEPT ![cur[t]].b = seq + 1] /\ Saw(t) /\ UNCHANGED <<stack, log, lock, clock, cur>>
Next == \E t \in 1..NT : \/ \E k \in {"push", "pop", "meta"} : Begin(t, k)
                         \/ Read(t) \/ Lock(t) \/ Act(t) \/ Unlock(t) \/ Return(t)
Over == \A t \in 1..NT : pc[t] = "idle" /\ Mine(t) = MaxCalls
EmitInv == ~(EmitMode # "none" /\ Over) \/ PrintT("BEH|" \o ToJson([calls |-> [k \in 1..Len(calls) |-> [th |-> calls[k].th, k |-> calls[k].k]], plan |-> plan]))
View == <<pc, stack, log, lock, clock, seq, calls, cur>>

\* the judge accepts whatever the model does
Accepted == (\A t \in 1..NT : pc[t] = "idle") => Judge(NT, calls, log) = ""
\* and notices an entry that is dropped, doubled or swapped
Noticed == (\A t \in 1..NT : pc[t] = "idle") =>
    /\ \A k \in 1..Len(log) : Judge(NT, calls, SubSeq(log, 1, k - 1) \o SubSeq(log, k + 1, Len(log))) # ""
    /\ \A k \in 1..Len(log) : Judge(NT, calls, SubSeq(log, 1, k) \o SubSeq(log, k, Len(log))) # ""
    /\ \A k \in 1..(Len(log) - 1) : log[k].th = log[k + 1].th => Judge(NT, calls, SubSeq(log, 1, k - 1) \o <<log[k + 1], log[k]>> \o SubSeq(log, k + 2, Len(log))) # ""
Exclusive == Cardinality({t \in 1..NT : pc[t] \in {"act", "unlock"}}) <= 1
Durations == \A k \in 1..Len(log) : log[k].dur >= 0
===============================================================================
