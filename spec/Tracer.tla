-------------------------------- MODULE Tracer --------------------------------
\* A log shared by threads: every thread has a stack of open scopes, closing one
\* moves it to the log in one step.
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Max2(a, b) == IF a > b THEN a ELSE b
Rng(q) == {q[k] : k \in 1..Len(q)}

\* Judging a recorded phase.  A call is c = [th, k, n, a, b, reads, v, g, site]: a < b are the
\* moments it began and ended, reads the clock values it saw, g how many events or
\* which arguments it was given.  The calls of a thread follow each other, so the order of
\* the log entries fixes the order in which the calls took effect; what remains is
\* that this order respects the threads, the moments and the stacks.
CallsOf(calls, t) == LET mine(c) == c.th = t IN SelectSeq(calls, mine)
ArgsOf(c) == CASE c.g = 1 -> << <<"v", c.n>> >> [] c.g = 2 -> << <<"s", "1">> >> [] OTHER -> <<>>
NoSite == <<"", 0, "">>

\* how many entries a call leaves in the log, with d open scopes in its thread
Leaves(c, d) == CASE c.k = "pop" -> IF d = 0 THEN 0 ELSE 1
                  [] c.k \in {"meta", "index"} -> 1
                  [] c.k = "add" -> c.g
                  [] OTHER -> 0
\* calls without entries are passed over: p, o = position and stack of the thread
RECURSIVE Pass(_, _, _)
Pass(q, p, o) ==
    IF p > Len(q) \/ Leaves(q[p], Len(o)) > 0 THEN [p |-> p, o |-> o, ok |-> TRUE]
    ELSE LET good == CASE q[p].k = "pop" -> q[p].v = "none" [] OTHER -> q[p].v = "ok"
             w == Pass(q, p + 1, IF q[p].k = "push" THEN Append(o, q[p]) ELSE o)
         IN [w EXCEPT !.ok = @ /\ good]

\* entry e is what call c leaves as its j-th entry when the open scopes are o
Fits(e, c, o, j) ==
    /\ c.v = "ok" /\ e.th = c.th /\ e.pid
    /\ CASE c.k = "pop" -> LET u == o[Len(o)] IN
                 /\ e.n = u.n /\ e.ph = "X" /\ e.cat = "c" \o u.n /\ e.args = ArgsOf(u) /\ e.site = u.site
                 /\ e.ts \in Rng(u.reads) /\ \E z \in Rng(c.reads) : e.dur = Max2(0, z - e.ts)
         [] c.k = "meta" -> /\ e.ph = "M" /\ e.args = << <<"name", c.n>> >> /\ e.dur = 0 /\ e.ts \in Rng(c.reads)
                            /\ e.n = (IF c.g % 2 = 0 THEN "process_name" ELSE "thread_name")
         [] c.k = "index" -> /\ e.ph = "M" /\ Len(e.args) = 1 /\ e.args[1][1] = "sort_index" /\ "i" \o e.args[1][2] = c.n
                             /\ e.dur = 0 /\ e.ts \in Rng(c.reads)
                             /\ e.n = (IF c.g % 2 = 0 THEN "process_sort_index" ELSE "thread_sort_index")
         [] c.k = "add" -> e.n = c.n \o "." \o ToString(j - 1) /\ e.ts = 3 /\ e.dur = 5 /\ e.ph = "X"

\* log: the entries of this phase; T: number of threads; qs[t]: calls of thread t
RECURSIVE Walk(_, _, _, _, _)
Walk(qs, log, k, at, latest) ==     \* at[t] = [p, o];  latest: latest beginning of a call that took effect
    IF k > Len(log) THEN
         LET fin == [t \in DOMAIN qs |-> Pass(qs[t], at[t].p, at[t].o)]
         IN IF \A t \in DOMAIN qs : fin[t].p > Len(qs[t]) /\ fin[t].ok THEN "" ELSE "entries missing"
    ELSE IF log[k].th \notin DOMAIN qs THEN "entry of an unknown thread"
    ELSE LET t == log[k].th
             w == Pass(qs[t], at[t].p, at[t].o)
         IN IF w.p > Len(qs[t]) \/ ~w.ok THEN "unexpected entry"
            ELSE LET c == qs[t][w.p]
                     m == Leaves(c, Len(w.o))
                 IN IF k + m - 1 > Len(log) \/ \E j \in 1..m : ~Fits(log[k + j - 1], c, w.o, j) THEN "wrong entry " \o ToString(k)
                    ELSE IF latest > c.b THEN "order of entries"
                    ELSE Walk(qs, log, k + m, [at EXCEPT ![t] = [p |-> w.p + 1, o |-> IF c.k = "pop" THEN SubSeq(w.o, 1, Len(w.o) - 1) ELSE w.o]], Max2(latest, c.a))
Judge(n, calls, log) ==
    IF Len(log) > 0 /\ \E k \in 1..Len(log) : log[k].th \notin 1..n THEN "entry of an unknown thread"
    ELSE Walk([t \in 1..n |-> CallsOf(calls, t)], log, 1, [t \in 1..n |-> [p |-> 1, o |-> <<>>]], 0)
===============================================================================
