-------------------------------- MODULE MapsMC --------------------------------
EXTENDS Maps
CONSTANTS NK, NV, Depth, EmitMode, Kind
KS == 0..(NK - 1)
VS == 0..(NV - 1)
Ops == {[op |-> k, x |-> x, y |-> y] : k \in {"put", "index", "adput", "seqadd", "getor", "unique", "move"}, x \in KS, y \in VS}
  \cup {[op |-> k, x |-> x] : k \in {"pop", "get", "at", "has", "erase"}, x \in KS}
  \cup {[op |-> k, y |-> y] : k \in {"eraser", "hasr", "left", "atleft"}, y \in VS}
  \cup {[op |-> k] : k \in {"clear", "same"}}
VARIABLES st, h
vars == <<st, h>>
Init == st = Start0 /\ h = <<>>
Emit(x) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(x)) ELSE TRUE
Next == \E o \in Ops : Len(h) < Depth /\ Can(Kind, st, o) /\ st' = Apply(Kind, st, o) /\ h' = Append(h, o) /\ Emit(h')
View == st.m
EmitInv == (EmitMode = "depth" /\ Len(h) = Depth) => PrintT("BEH|" \o ToJson(h))
OneValue == Len(st.m) = Cardinality(Keys(st.m))
OneToOne == Kind = "one" => Len(st.m) = Cardinality(Vals(st.m))
Both == \A k \in KS : k \in Keys(st.m) => \E j \in 1..Len(Lefts(st.m, At(st.m, k))) : Lefts(st.m, At(st.m, k))[j] = k
ReadKeeps == [][h'[Len(h')].op \in {"get", "at", "has", "hasr", "left", "atleft"} => st'.m = st.m]_vars
===============================================================================
