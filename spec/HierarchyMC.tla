------------------------------ MODULE HierarchyMC ------------------------------
EXTENDS Hierarchy
CONSTANTS MaxOps, MaxV, UseH, EmitMode
VARIABLES st, h
vars == <<st, h>>
Vs == 1..st.n
Ops == (IF st.n < MaxV THEN {[op |-> "addV"]} ELSE {})
  \cup [op : {"delV"}, v : Vs]
  \cup [op : {"track", "untrack"}, h : UseH, v : st.live]
  \cup [op : {"nest"}, h : UseH, p : st.live, s : st.live, via : {"own", "graph"}]
  \cup [op : {"unnest"}, h : UseH, p : st.live, s : st.live]
Init == st = Start /\ h = <<>>
Step(o) == st' = Apply(st, o) /\ h' = Append(h, o) /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(h')) ELSE TRUE)
Next == Len(h) < MaxOps /\ \E o \in Ops : Step(o)
View == <<st.live, st.n, st.hs>>
\* a forest: following parents ends, and parents, children, chains and edges agree
Forest == \A k \in UseH : LET H == st.hs[k] IN
  /\ \A v \in H.in : H.par[v] \in H.in \cup {0} /\ v \notin Set(Chain(H, v)) /\ Len(Chain(H, v)) < Cardinality(H.in)
  /\ \A v \in H.in : v \in Subs(H, H.par[v])
  /\ UNION {Under(H, v) : v \in Roots(H)} = H.in
  /\ \A v, w \in H.in : (w \in Set(Chain(H, v))) = (v # w /\ v \in Under(H, w))
\* no hierarchy mentions a vertex the graph lost
NoDangling == \A k \in UseH : st.hs[k].in \subseteq st.live
\* way between two vertices: the same groups in the opposite order on the way back
Symmetric == \A k \in UseH : \A a, b \in st.hs[k].in :
  LET H == st.hs[k] IN
  /\ (H.par[a] # b /\ H.par[b] # a) => Crossings(H, b, a) = Rev(Crossings(H, a, b))
  /\ (H.par[a] = H.par[b] => Crossings(H, a, b) = <<>>)
  /\ a \notin Set(Crossings(H, a, b))
Exact1 == LET o == h'[Len(h')] IN
  CASE st'.res = "err" -> View' = View
    [] o.op \in {"untrack", "delV"} -> \A k \in UseH : \A v \in st.hs[k].in :
         /\ (v \in st'.hs[k].in) = ((o.op = "untrack" /\ k # o.h) \/ (o.v # v /\ o.v \notin Set(Chain(st.hs[k], v))))
         /\ (v \in st'.hs[k].in => st'.hs[k].par[v] = st.hs[k].par[v])
    [] OTHER -> \A k \in UseH : st.hs[k].in \subseteq st'.hs[k].in
Exact == [][Exact1]_vars
===============================================================================
