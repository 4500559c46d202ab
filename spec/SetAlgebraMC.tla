----------------------------- MODULE SetAlgebraMC -----------------------------
EXTENDS SetAlgebra
CONSTANTS N, Depth, EmitMode, Finite
D == 0..(N - 1)
Ops == {[op |-> k, x |-> x] : k \in {"incl", "excl", "has"}, x \in D}
  \cup {[op |-> k, lo |-> x, hi |-> y] : k \in {"inclr", "exclr"}, x \in D, y \in D}
  \cup {[op |-> k] : k \in {"incls", "excls", "swap", "copy", "plus", "or", "minus", "and", "xor", "cmp"}}
  \cup (IF Finite THEN {[op |-> "compl"]} \cup {[op |-> "build", lo |-> x, hi |-> y, x |-> z] : x \in D, y \in D, z \in D} ELSE {})
VARIABLES st, h
vars == <<st, h>>
Init == st = Start0 /\ h = <<>>
Can(o) == o.op \in {"inclr", "exclr", "build"} => (Finite /\ o.lo <= o.hi)
Emit(x) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(x)) ELSE TRUE
Next == \E o \in Ops : Len(h) < Depth /\ Can(o) /\ st' = Apply(D, st, o) /\ h' = Append(h, o) /\ Emit(h')
View == <<st.a, st.b>>
EmitInv == (EmitMode = "depth" /\ Len(h) = Depth) => PrintT("BEH|" \o ToJson(h))
InDomain == st.a \subseteq D /\ st.b \subseteq D
Op(k) == [op |-> k]
A(k) == Apply(D, st, Op(k)).a
\* laws of the algebra, as a check of the operators themselves
Laws == /\ A("xor") = (A("or") \ A("and"))
        /\ A("minus") = (st.a \cap Apply(D, Apply(D, [st EXCEPT !.a = st.b], Op("compl")), Op("copy")).a)
        /\ Apply(D, Apply(D, st, Op("compl")), Op("compl")).a = st.a
        /\ Apply(D, st, Op("cmp")).ret.lt = (Apply(D, st, Op("cmp")).ret.le /\ ~Apply(D, st, Op("cmp")).ret.eq)
===============================================================================
