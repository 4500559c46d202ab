-------------------------------- MODULE GraphMC --------------------------------
EXTENDS Graph
CONSTANTS MaxOps, MaxV, MaxE, MaxP, MaxA, Colls, Trk, EmitMode
VARIABLES st, h
vars == <<st, h>>
Ops ==
  {[op |-> "addV", n |-> n] : n \in IF Len(st.vs) < MaxV THEN {"", "p"} ELSE {}}
  \cup [op : {"delV"}, v : 1..Len(st.vs)]
  \cup (IF Len(st.es) < MaxE THEN [op : {"addE"}, c : Colls, s : LiveV(st), t : LiveV(st), n : {"", "x"}] ELSE {})
  \cup [op : {"delE"}, e : 1..Len(st.es)]
  \cup (IF Len(st.ps) < MaxP THEN [op : {"addP"}, v : LiveV(st)] \cup [op : {"addPE"}, v : LiveV(st), e : AllE(st), src : BOOLEAN] ELSE {})
  \cup (IF MaxP > 0 THEN [op : {"conn"}, p : LiveP(st), v : LiveV(st), e : AllE(st), src : BOOLEAN] ELSE {})
  \cup (IF MaxP > 0 THEN [op : {"join"}, p : LiveP(st), e : AllE(st), src : BOOLEAN] ELSE {})
  \cup [op : {"delP"}, p : LiveP(st)]
  \cup UNION {IF Len(st.vs[v].at) < MaxA THEN [op : {"attr", "uniq"}, v : {v}, k : {"A", "B", "D"}, x : {Len(h)}] ELSE {} : v \in LiveV(st)}
  \cup (IF MaxA > 0 THEN [op : {"reset"}, v : {v \in LiveV(st) : Len(st.vs[v].at) < MaxA}, k : {"A", "D"}, x : {Len(h)}] ELSE {})
  \cup [op : {"track"}, t : Trk, on : BOOLEAN]
Init == st = Start /\ h = <<>>
Step(o) == st' = Apply(st, o) /\ h' = Append(h, o) /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(h')) ELSE TRUE)
Next == Len(h) < MaxOps /\ \E o \in Ops : Step(o)
\* attribute values do not matter for what is possible next
View == <<[v \in 1..Len(st.vs) |-> <<st.vs[v].n, st.vs[v].live, [j \in 1..Len(st.vs[v].at) |-> st.vs[v].at[j].k]>>], st.es, st.ps, {st.pe[j] : j \in 1..Len(st.pe)}, st.tr>>
EmitInv == EmitMode # "depth" \/ Len(h) < MaxOps \/ PrintT("BEH|" \o ToJson(h))
\* every live edge is seen from both of its ends and nowhere else, and its ends are alive
Incidence == \A c \in Collections : \A e \in LiveE(st, c) :
  /\ st.es[e].s \in LiveV(st) /\ st.es[e].t \in LiveV(st)
  /\ \A v \in LiveV(st) : (e \in Out(st, c, v)) = (st.es[e].s = v) /\ (e \in In(st, c, v)) = (st.es[e].t = v)
Unique == /\ \A n \in {"p"} : Cardinality(VNamed(st, n)) <= 1
          /\ \A c \in {1, 2} : Cardinality(ENamed(st, c, "x")) <= 1
PortsAlive == \A j \in 1..Len(st.pe) : st.pe[j].p \in LiveP(st)
\* a removal removes the item and what depends on it; everything else stays as it was
Exact1 == LET o == h'[Len(h')] IN
  CASE st'.res = "err" -> [st' EXCEPT !.res = st.res, !.told = st.told] = st
    [] o.op = "delE" -> AllE(st') = AllE(st) \ {o.e} /\ st'.vs = st.vs
    [] o.op = "delV" -> AllE(st') = {e \in AllE(st) : o.v \notin {st.es[e].s, st.es[e].t}} /\ LiveV(st') = LiveV(st) \ {o.v}
    [] OTHER -> LiveV(st) \subseteq LiveV(st') /\ AllE(st) \subseteq AllE(st')
Exact == [][Exact1]_vars
===============================================================================
