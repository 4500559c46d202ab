------------------------------- MODULE LazyMC -------------------------------
EXTENDS Lazy
CONSTANTS PLen, Depth, EmitMode
Steps == {[k |-> "y", v |-> 5], [k |-> "y", v |-> 6], [k |-> "e", v |-> 1], [k |-> "t", v |-> 0]}
Progs == UNION {[1..n -> Steps] : n \in 0..PLen}
Ops == {[op |-> "new", i |-> i, p |-> p] : i \in Slots, p \in Progs}
       \cup {[op |-> k, i |-> i] : k \in {"begin", "inc", "deref", "isend", "move", "drop"}, i \in Slots}
       \cup {[op |-> "set", i |-> i, v |-> 9] : i \in Slots}
VARIABLES st, h
vars == <<st, h>>
Init == st = Start0 /\ h = <<>>
Emit(x) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(x)) ELSE TRUE
Next == \E o \in Ops : Len(h) < Depth /\ Can(st, o) /\ st' = Apply(st, o) /\ h' = Append(h, o) /\ Emit(h')
View == st.g
EmitInv == (EmitMode = "depth" /\ Len(h) = Depth) => PrintT("BEH|" \o ToJson(h))
\* nothing of the body runs except through begin and inc; a suspended body is at a yield
LazyBody == [][h'[Len(h')].op \in {"new", "deref", "isend", "set", "move"} => st'.ret.log = <<>>]_vars
AtYield == \A i \in Slots : st.g[i].st = "susp" => st.g[i].prog[st.g[i].pc - 1].k = "y"
===============================================================================
