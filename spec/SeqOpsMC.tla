------------------------------- MODULE SeqOpsMC -------------------------------
EXTENDS SeqOps
CONSTANTS MaxLen, Depth, EmitMode
V == {0, 2}
Ps == {[b |-> FALSE, v |-> k] : k \in -1..3} \cup {[b |-> TRUE, v |-> k] : k \in 0..3}
Ls == {<<>>, <<1>>, <<2, 1>>}
Ops == {[op |-> k, x |-> x] : k \in {"push", "pushidx", "plusone", "indexof", "contains"}, x \in V}
  \cup {[op |-> k] : k \in {"pop", "popv", "back", "high", "clear", "reverse", "reversed", "map", "enum"}}
  \cup {[op |-> k, p |-> p] : k \in {"at", "cat", "get", "cget", "copy", "has"}, p \in Ps}
  \cup {[op |-> "index", p |-> p] : p \in {[b |-> FALSE, v |-> k] : k \in -1..3} \cup {[b |-> TRUE, v |-> k] : k \in 1..3}}
  \cup {[op |-> "ator", p |-> p, x |-> 9] : p \in Ps}
  \cup {[op |-> "set", p |-> p, x |-> x] : p \in Ps, x \in V}
  \cup {[op |-> "insert", k |-> k, x |-> x] : k \in 0..2, x \in V}
  \cup {[op |-> kk, k |-> k, x |-> x] : kk \in {"resizeat", "resizeatv"}, k \in 0..2, x \in V}
  \cup {[op |-> kk, l |-> l] : kk \in {"append", "appendspan", "plus", "less", "cart", "adapter"}, l \in Ls}
  \cup {[op |-> kk, a |-> a, z |-> z, x |-> 3] : kk \in {"slice", "fill"}, a \in Ps, z \in Ps}
  \cup {[op |-> "splice", x |-> 1, l |-> l] : l \in Ls}
  \cup {[op |-> "partition", m |-> 2]} \cup {[op |-> "windows", k |-> k] : k \in 2..4}
VARIABLES st, h
vars == <<st, h>>
Init == st = Start0 /\ h = <<>>
Can(s0, o) == o.op = "insert" => o.k <= Len(s0.q)
Emit(x) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(x)) ELSE TRUE
Next == \E o \in Ops : /\ Len(h) < Depth /\ Can(st, o)
                       /\ st' = Apply(st, o) /\ Len(st'.q) <= MaxLen
                       /\ h' = Append(h, o) /\ Emit(h')
View == st.q
EmitInv == (EmitMode = "depth" /\ Len(h) = Depth) => PrintT("BEH|" \o ToJson(h))
\* a failed operation changes nothing; reading operations change nothing
FailKeeps == [][ToString(st'.ret) = ToString(Err) => st'.q = st.q]_vars
ReadKeeps == [][h'[Len(h')].op \in {"at", "cat", "get", "slice", "less", "plus", "reversed", "map", "partition", "has", "back"} => st'.q = st.q]_vars
RunsOk == Cat(Runs(st.q, 2)) = st.q
CutLen == \A a \in Ps, z \in Ps : LET r == Rng(Len(st.q), a, z) IN RngOk(Len(st.q), r) => Len(Cut(st.q, r)) = r.l - r.f + 1
LessOrder == \A a \in Ls : ~(Less(a, st.q) /\ Less(st.q, a)) /\ (Less(a, st.q) \/ Less(st.q, a) \/ a = st.q)
===============================================================================
