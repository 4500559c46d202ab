------------------------------- MODULE StoresMC -------------------------------
EXTENDS Stores
CONSTANTS MaxLen, Depth, EmitMode
X == 0..2
Ops == {[op |-> k, x |-> x, m |-> m] : k \in {"adda", "addb"}, x \in X, m \in {0, 2}}
  \cup {[op |-> k, i |-> i, m |-> m] : k \in {"ata", "atb", "hasa"}, i \in -1..3, m \in {0, 1}}
  \cup {[op |-> "hasb", x |-> x] : x \in X}
  \cup {[op |-> k, i |-> i, x |-> x, m |-> 1] : k \in {"seta", "insa", "insb"}, i \in -1..3, x \in X}
  \cup {[op |-> "ends"]} \cup {[op |-> "slicea", i |-> i, j |-> j] : i \in 0..2, j \in 0..2}
VARIABLES st, h
vars == <<st, h>>
Init == st = Start0 /\ h = <<>>
Emit(x) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(x)) ELSE TRUE
Next == \E o \in Ops : /\ Len(h) < Depth /\ st' = Apply(st, o) /\ Len(st'.a) <= MaxLen /\ Len(st'.b) <= MaxLen
                       /\ h' = Append(h, o) /\ Emit(h')
View == <<st.a, st.b, st.bm>>
EmitInv == (EmitMode = "depth" /\ Len(h) = Depth) => PrintT("BEH|" \o ToJson(h))
Distinct == \A i, j \in 1..Len(st.b) : st.b[i] = st.b[j] => i = j
\* an identifier keeps its value unless that very entry is overwritten
Stable == [][LET o == h'[Len(h')] IN
             /\ \A k \in 1..Len(st.a) : st'.a[k] = st.a[k] \/ (o.op \in {"seta", "insa"} /\ o.i = k - 1)
             /\ \A k \in 1..Len(st.b) : st'.b[k] = st.b[k] \/ (o.op = "insb" /\ o.i = k - 1)]_vars
===============================================================================
