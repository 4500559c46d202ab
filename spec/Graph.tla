--------------------------------- MODULE Graph ---------------------------------
\* A graph: vertices with stable names, edges in several collections, connection
\* ports, typed attributes and vertex trackers.  Items are numbered in the order
\* they were created and numbers are never used again.  Property G01.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Collections == 1..3          \* the third one stores no edge objects, hence no names
Start == [vs |-> <<>>, es |-> <<>>, ps |-> <<>>, pe |-> <<>>, tr |-> {}, told |-> {}, res |-> "ok"]
LiveV(st) == {v \in 1..Len(st.vs) : st.vs[v].live}
LiveE(st, c) == {e \in 1..Len(st.es) : st.es[e].live /\ st.es[e].c = c}
AllE(st) == {e \in 1..Len(st.es) : st.es[e].live}
LiveP(st) == {p \in 1..Len(st.ps) : st.ps[p].live}
VNamed(st, n) == {v \in LiveV(st) : st.vs[v].n = n}
ENamed(st, c, n) == {e \in LiveE(st, c) : st.es[e].n = n}
\* an edge without a name is called after its ends, so a second one is a duplicate
Clash(st, o) == o.c # 3 /\ \E e \in LiveE(st, o.c) : IF o.n = "" THEN st.es[e].n = "" /\ st.es[e].s = o.s /\ st.es[e].t = o.t ELSE st.es[e].n = o.n
Ok(st) == [st EXCEPT !.res = "ok"]
Err(st) == [st EXCEPT !.res = "err"]
Tell(st, k, v) == [st EXCEPT !.told = {<<t, k, v>> : t \in st.tr}]
DelEdges(st, S) == [st EXCEPT !.es = [e \in 1..Len(@) |-> [@[e] EXCEPT !.live = @ /\ e \notin S]]]
Touching(st, v) == {e \in AllE(st) : st.es[e].s = v \/ st.es[e].t = v}
\* ---- attributes: D is a kind of A
IsKind(x, k) == x.k = k \/ (k = "A" /\ x.k = "D")
Reset(q, x) ==
  LET same == {j \in 1..Len(q) : q[j].k = x.k}
      first == CHOOSE j \in same : \A m \in same : j <= m
      keep == SelectSeq([j \in 1..Len(q) |-> [x |-> IF j \in same THEN x ELSE q[j], use |-> j \notin same \/ j = first]], LAMBDA y : y.use)
  IN IF same = {} THEN Append(q, x) ELSE [j \in 1..Len(keep) |-> keep[j].x]
\* ---- ports
Connected(st, p, e, src) == \E j \in 1..Len(st.pe) : st.pe[j] = [p |-> p, e |-> e, src |-> src]
Connect(st, p, v, e, src) ==
  IF p \notin LiveP(st) \/ st.ps[p].v # v \/ Connected(st, p, e, src) THEN Err(st)
  ELSE [Ok(st) EXCEPT !.pe = Append(@, [p |-> p, e |-> e, src |-> src])]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.told = {}] IN
  CASE o.op = "addV" -> IF o.n # "" /\ VNamed(st, o.n) # {} THEN Err(st)
                        ELSE Tell([Ok(st) EXCEPT !.vs = Append(@, [n |-> o.n, live |-> TRUE, at |-> <<>>])], "track", Len(st.vs) + 1)
    [] o.op = "delV" -> IF o.v \notin LiveV(st) THEN Err(st)
                        ELSE Tell([DelEdges(Ok(st), Touching(st, o.v)) EXCEPT !.vs[o.v].live = FALSE], "untrack", o.v)
    [] o.op = "addE" -> IF Clash(st, o) THEN Err(st) ELSE [Ok(st) EXCEPT !.es = Append(@, [c |-> o.c, s |-> o.s, t |-> o.t, n |-> o.n, live |-> TRUE])]
    [] o.op = "delE" -> IF o.e \notin AllE(st) THEN Err(st) ELSE DelEdges(Ok(st), {o.e})
    [] o.op = "addP" -> [Ok(st) EXCEPT !.ps = Append(@, [v |-> o.v, live |-> TRUE])]
    [] o.op = "addPE" -> Connect([st EXCEPT !.ps = Append(@, [v |-> o.v, live |-> TRUE])], Len(st.ps) + 1, o.v, o.e, o.src)
    [] o.op = "conn" -> Connect(st, o.p, o.v, o.e, o.src)
    [] o.op = "join" -> IF o.p \notin LiveP(st) THEN Err(st) ELSE Connect(st, o.p, st.ps[o.p].v, o.e, o.src)
    [] o.op = "delP" -> IF o.p \notin LiveP(st) THEN Err(st)
                        ELSE [Ok(st) EXCEPT !.ps[o.p].live = FALSE, !.pe = SelectSeq(@, LAMBDA x : x.p # o.p)]
    [] o.op = "attr" -> [Ok(st) EXCEPT !.vs[o.v].at = Append(@, [k |-> o.k, x |-> o.x])]
    [] o.op = "uniq" -> IF \E j \in 1..Len(st.vs[o.v].at) : st.vs[o.v].at[j].k = o.k THEN Err(st)
                        ELSE [Ok(st) EXCEPT !.vs[o.v].at = Append(@, [k |-> o.k, x |-> o.x])]
    [] o.op = "reset" -> [Ok(st) EXCEPT !.vs[o.v].at = Reset(@, [k |-> o.k, x |-> o.x])]
    [] o.op = "track" -> [Ok(st) EXCEPT !.tr = IF o.on THEN @ \cup {o.t} ELSE @ \ {o.t}]
\* ---- what the queries answer
Out(st, c, v) == {e \in LiveE(st, c) : st.es[e].s = v}
In(st, c, v) == {e \in LiveE(st, c) : st.es[e].t = v}
Within(st, c, S) == {e \in LiveE(st, c) : st.es[e].s \in S /\ st.es[e].t \in S}
Reaching(st, c, S) == {e \in LiveE(st, c) : st.es[e].s \in S \/ st.es[e].t \in S}
PortsOf(st, v) == {p \in LiveP(st) : st.ps[p].v = v}
EdgesAt(st, p) == {st.pe[j].e : j \in {m \in 1..Len(st.pe) : st.pe[m].p = p}}
Sides(st, p) == {st.pe[j].src : j \in {m \in 1..Len(st.pe) : st.pe[m].p = p}}
PortsAt(st, e, src) == {st.pe[j].p : j \in {m \in 1..Len(st.pe) : st.pe[m].e = e /\ st.pe[m].src = src}}
Side(st, p) == IF Sides(st, p) = {TRUE} THEN "source" ELSE IF Sides(st, p) = {FALSE} THEN "target" ELSE "err"
Kinds(q, k) == SelectSeq(q, LAMBDA x : IsKind(x, k))
===============================================================================
