------------------------------- MODULE TrackingMC -------------------------------
EXTENDS Tracking
CONSTANTS MaxOps, MaxProcs, EmitMode
VARIABLES st, h
vars == <<st, h>>
\* small programs: up to two statements around an inner block of up to two
N == 5
Leaf == {[op |-> "jump", a |-> "j", n |-> N], [op |-> "throw"], [op |-> "start", n |-> N], [op |-> "end", n |-> N],
         [op |-> "text", a |-> "k", b |-> "v", n |-> N], [op |-> "scope", a |-> "s", n |-> N], [op |-> "func", a |-> "f", n |-> N, args |-> <<>>]}
Raii == {x \in Leaf : x.op \in {"scope", "func"}}
Inner == {<<>>} \cup {<<x>> : x \in Leaf} \cup {<<x, y>> : x \in Raii, y \in Leaf}
Outer == Leaf \cup [op : {"block", "try"}, b : Inner]
Progs == {<<x, y>> : x \in Outer, y \in Outer}
Flat == [op : {"add"}, p : 0..2] \cup [op : {"start", "end"}, n : {N}] \cup [op : {"se", "sx", "jump"}, a : {"s"}, n : {N}]
        \cup [op : {"fs", "fe"}, a : {"f"}, n : {N}, args : {<<>>, <<<<"x", "1">>>>}] \cup [op : {"text"}, a : {"k"}, b : {"v"}, n : {N}]
Init == st = Start /\ h = <<>>
Step(o) == st' = Apply(st, o) /\ h' = Append(h, o) /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(h')) ELSE TRUE)
Next == /\ Len(h) < MaxOps
        /\ \/ \E o \in Flat : (o.op = "add" => Len(st.procs) < MaxProcs) /\ Step(o)
           \/ \E b \in Progs : Step([op |-> "run", b |-> b])
View == <<st.on, st.procs, st.depth \in 0..1>>
EmitInv == EmitMode # "depth" \/ Len(h) < MaxOps \/ PrintT("BEH|" \o ToJson(h))
\* tracing off from beginning to end: nothing is announced
Quiet == [][(~st.on /\ ~st'.on /\ h'[Len(h')].op # "run") => st'.out = <<>>]_vars
\* every processor hears the same, as often as it is registered
Heard(q, p) == SelectSeq(q, LAMBDA x : x.p = p)
Times(p) == Cardinality({j \in 1..Len(st.procs) : st.procs[j] = p})
RECURSIVE Stretch(_, _)
Stretch(q, n) == IF q = <<>> THEN <<>> ELSE [j \in 1..n |-> [q[1] EXCEPT !.p = 0]] \o Stretch(Tail(q), n)
Equal1 == h # <<>> /\ h[Len(h)].op # "add" /\ Times(1) > 0 /\ Times(2) > 0 =>
           Len(Heard(st.out, 1)) * Times(2) = Len(Heard(st.out, 2)) * Times(1)
\* while tracing stays on, a program announces ends for its starts, innermost first
RECURSIVE Nest(_, _)
Nest(q, stack) ==
  IF q = <<>> THEN stack = <<>>
  ELSE IF q[1].k \in {"fs", "se"} THEN Nest(Tail(q), Append(stack, q[1]))
  ELSE IF q[1].k \in {"fe", "sx"} THEN stack # <<>> /\ stack[Len(stack)].a = q[1].a /\ Nest(Tail(q), SubSeq(stack, 1, Len(stack) - 1))
  ELSE Nest(Tail(q), stack)
Toggles(b) == \E j \in 1..Len(b) : b[j].op \in {"start", "end"} \/ (b[j].op \in {"block", "try"} /\ \E m \in 1..Len(b[j].b) : b[j].b[m].op \in {"start", "end"})
Balanced1 == h # <<>> /\ h[Len(h)].op = "run" /\ ~Toggles(h[Len(h)].b) /\ Times(1) = 1 => Nest(Heard(st.out, 1), <<>>)
Equal == [][Equal1']_vars
Balanced == [][Balanced1']_vars
===============================================================================
