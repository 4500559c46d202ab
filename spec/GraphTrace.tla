------------------------------- MODULE GraphTrace -------------------------------
EXTENDS Graph, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE /\ st = Start
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Set(q) == {q[j] : j \in 1..Len(q)}
Same(q, S) == Set(q) = S /\ Len(q) = Cardinality(S)       \* a list of distinct items
One(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE
Names == <<"p", "q", "x", "y">>
V(n) == 1..Len(n.vs)
Wrong(n, e) ==
  LET r == e.r IN
  {w \in
   {IF r.res = n.res THEN "" ELSE "result",
    IF r.new = (IF n.res = "err" THEN 0 ELSE IF e.op = "addV" THEN Len(n.vs) ELSE IF e.op = "addE" THEN Len(n.es) ELSE IF e.op \in {"addP", "addPE"} THEN Len(n.ps) ELSE 0) THEN "" ELSE "new item",
    IF {<<x[1], x[2], x[3]>> : x \in Set(r.told)} = n.told /\ Len(r.told) = Cardinality(n.told) THEN "" ELSE "trackers",
    IF Same(r.all, LiveV(n)) /\ r.count = Cardinality(LiveV(n)) THEN "" ELSE "vertex list",
    IF r.vname = [k \in 1..4 |-> One(VNamed(n, Names[k]))] THEN "" ELSE "vertex names",
    IF r.tracked = [v \in V(n) |-> n.vs[v].live] THEN "" ELSE "vertex tracked",
    IF r.sum = Cardinality(AllE(n)) THEN "" ELSE "edge total",
    IF \A v \in LiveV(n) : Same(r.gout[v], UNION {Out(n, c, v) : c \in Collections}) /\ Same(r.gin[v], UNION {In(n, c, v) : c \in Collections})
       /\ r.gdeg[v] = <<Cardinality(UNION {In(n, c, v) : c \in Collections}), Cardinality(UNION {Out(n, c, v) : c \in Collections})>> THEN "" ELSE "graph adjacency",
    IF r.ends = [k \in 1..Len(n.es) |-> IF n.es[k].live THEN <<n.es[k].s, n.es[k].t>> ELSE <<0, 0>>] THEN "" ELSE "edge ends",
    IF r.gname = [k \in 1..4 |-> \E c \in 1..2 : ENamed(n, c, Names[k]) # {}] THEN "" ELSE "graph edge names",
    IF \A v \in LiveV(n) : Same(r.vports[v], PortsOf(n, v)) THEN "" ELSE "ports of a vertex",
    IF \A p \in 1..Len(n.ps) : LET x == r.ports[p] IN
         IF n.ps[p].live THEN x.v = n.ps[p].v /\ Same(x.e, EdgesAt(n, p)) /\ x.side = Side(n, p) ELSE x.v = 0 THEN "" ELSE "port",
    IF \A k \in 1..Len(n.es) : LET x == r.eports[k] IN
         /\ IF PortsAt(n, k, TRUE) = {} THEN x.pair[1] = 0 ELSE x.pair[1] \in PortsAt(n, k, TRUE)
         /\ IF PortsAt(n, k, FALSE) = {} THEN x.pair[2] = 0 ELSE x.pair[2] \in PortsAt(n, k, FALSE)
         /\ \A v \in V(n) : \A side \in {1, 2} :
              LET S == {p \in PortsAt(n, k, side = 1) : n.ps[p].v = v} IN
              x.has[v][side] = (S # {}) /\ (IF S = {} THEN x.get[v][side] = 0 ELSE x.get[v][side] \in S) THEN "" ELSE "ports of an edge",
    IF \A v \in V(n) : LET q == n.vs[v].at  x == r.attrs[v] IN
         /\ x.all = [j \in 1..Len(q) |-> <<q[j].k, q[j].x>>]
         /\ \A m \in 1..3 : LET k == <<"A", "B", "D">>[m]  ks == Kinds(q, k) IN
              /\ x.kind[m] = [j \in 1..Len(ks) |-> ks[j].x]
              /\ x.first[m] = (IF ks = <<>> THEN <<>> ELSE <<ks[1].x>>)
              /\ x.only[m] = (IF Len(ks) = 1 THEN <<ks[1].x>> ELSE <<>>) THEN "" ELSE "attributes"}
   \cup {IF LET x == r.coll[c] IN
            /\ Same(x.all, LiveE(n, c)) /\ x.num = Cardinality(LiveE(n, c))
            /\ x.tracked = [k \in 1..Len(n.es) |-> n.es[k].live /\ n.es[k].c = c]
            /\ (c # 3 => x.name = [k \in 1..4 |-> One(ENamed(n, c, Names[k]))])
            /\ Same(x.within, Within(n, c, Set(e.q))) /\ Same(x.reaching, Reaching(n, c, Set(e.q)))
         THEN "" ELSE "collection " \o ToString(c) : c \in Collections}
   \cup {IF LET x == r.coll[c].v[v] IN
            /\ Same(x.out, Out(n, c, v)) /\ Same(x.in, In(n, c, v)) /\ Same(x.adj, Out(n, c, v) \cup In(n, c, v))
            /\ x.deg = <<Cardinality(In(n, c, v)), Cardinality(Out(n, c, v))>>
            /\ Same(x.outn, {n.es[k].t : k \in Out(n, c, v)}) /\ Same(x.inn, {n.es[k].s : k \in In(n, c, v)})
            /\ Same(x.adjn, {n.es[k].t : k \in Out(n, c, v)} \cup {n.es[k].s : k \in In(n, c, v)})
            /\ x.to = [w \in V(n) |-> \E k \in Out(n, c, v) : n.es[k].t = w]
         THEN "" ELSE "adjacency of " \o ToString(v) \o " in " \o ToString(c) : c \in Collections, v \in V(n)}
  : w # ""}
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ st' = st /\ Reject(<<e.op, e.what>>)
     ELSE LET n == Apply(st, e) IN
       /\ st' = n
       /\ bad' = (Wrong(n, e) # {})
       /\ (bad' => Reject(Wrong(n, e)))
===============================================================================
