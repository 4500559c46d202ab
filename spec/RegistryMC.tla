------------------------------- MODULE RegistryMC -------------------------------
EXTENDS Registry
CONSTANTS MaxOps, EmitMode
VARIABLES st, h
vars == <<st, h>>
Paths == {"", "a", "a/b", "b"}
Texts == {"", "x", "y"}
Ops == [op : {"add"}, p : Paths, t : Texts] \cup [op : {"id", "text"}, p : Paths] \cup [op : {"path", "content"}, n : 0..5]
Init == h = <<>> /\ st = Begin
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops : st' = Apply(st, o) /\ h' = Append(h, o) /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(h')) ELSE TRUE)
View == st.q
EmitInv == EmitMode # "depth" \/ Len(h) < MaxOps \/ PrintT("BEH|" \o ToJson(h))
OnePath == \A j, k \in 1..Len(st.q) : st.q[j][1] = st.q[k][1] => j = k
Stable == [][Len(st'.q) \in {Len(st.q), Len(st.q) + 1} /\ \A k \in 1..Len(st.q) : st'.q[k] = st.q[k]]_vars
Refused == [][ToString(st'.ret) = ToString("err") => st'.q = st.q]_vars
===============================================================================
