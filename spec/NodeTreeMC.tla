------------------------------- MODULE NodeTreeMC -------------------------------
EXTENDS NodeTree
CONSTANTS MaxOps, EmitMode
VARIABLES st, h
vars == <<st, h>>
Ops == {[op |-> "add", t |-> t, k |-> 1, v |-> IF t = "tok" THEN 7 ELSE 0] : t \in {"sub", "tok", "mono"}}
  \cup {[op |-> "end"], [op |-> "fail", t |-> "mono", k |-> 2, v |-> 0]}
  \cup {[op |-> "cut", i |-> i] : i \in 1..Size(st)}
Init == st = Start /\ h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops : /\ Enabled(st, o) /\ st' = Apply(st, o) /\ h' = Append(h, o)
                          /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(h')) ELSE TRUE)
View == st
EmitInv == EmitMode # "depth" \/ Len(h) < MaxOps \/ PrintT("BEH|" \o ToJson(h))
\* ---- laws of the flat form
Prefix == \A k \in 1..Size(st) : st.par[k] < k
\* only open nodes can have nodes added below them: a closed node is one block
Block == \A k \in 1..Size(st) : ~Open(st, k) => {x \in 1..Size(st) : Under(st, x, k)} = k..(k + Extent(st, k))
Leaf == \A k \in 1..Size(st) : st.n[k].t # "sub" => Kids(st, k) = <<>>
Pending == \A x \in 1..Len(st.pend) : st.n[st.pend[x]].t = "sub" /\ st.par[st.pend[x]] = (IF x = 1 THEN 0 ELSE st.pend[x - 1])
\* the children of a closed node are found by stepping over whole blocks
RECURSIVE Hop(_, _)
Hop(x, end) == IF x > end THEN <<>> ELSE <<x>> \o Hop(x + Extent(st, x) + 1, end)
Steps == \A k \in 1..Size(st) : Seen(st, k) = Hop(k + 1, k + Extent(st, k))
Nearest == \A k \in 1..Size(st) : LET S == {x \in 1..(k - 1) : k <= x + Extent(st, x)} IN
   Parent(st, k) = (IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x)
===============================================================================
