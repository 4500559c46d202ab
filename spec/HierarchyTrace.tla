----------------------------- MODULE HierarchyTrace -----------------------------
EXTENDS Hierarchy, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE /\ st = Start
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Same(q, S) == Set(q) = S /\ Len(q) = Cardinality(S)
Pairs(q) == {<<q[j][1], q[j][2]>> : j \in 1..Len(q)}
SamePairs(q, S) == Pairs(q) = S /\ Len(q) = Cardinality(S)
WrongH(n, k, x) ==
  LET H == n.hs[k] IN
  {w \in
   {IF Same(x.all, H.in) /\ x.count = Cardinality(H.in) /\ x.tracked = [v \in 1..n.n |-> v \in H.in] THEN "" ELSE "vertices",
    IF Same(x.roots, Roots(H)) THEN "" ELSE "roots",
    IF x.par = [v \in 1..n.n |-> IF v \in H.in THEN H.par[v] ELSE 0] THEN "" ELSE "parents",
    IF \A v \in 1..n.n : Same(x.subs[v], IF v \in H.in THEN Subs(H, v) ELSE {}) THEN "" ELSE "children",
    IF \A v \in 1..n.n : x.chain[v] = Chain(H, v) THEN "" ELSE "chains",
    IF SamePairs(x.edges, Edges(H)) /\ x.num = Cardinality(Edges(H)) THEN "" ELSE "edges",
    IF \A v \in 1..n.n : SamePairs(x.out[v], {e \in Edges(H) : e[1] = v}) /\ SamePairs(x.in[v], {e \in Edges(H) : e[2] = v}) THEN "" ELSE "adjacency",
    IF \A v, w \in 1..n.n : x.has[v][w] = (<<v, w>> \in Edges(H)) THEN "" ELSE "edge between",
    IF x.level = MaxLevel(H) THEN "" ELSE "nesting level"} : w # ""}
WrongAsk(n, e) ==
  LET H == n.hs[e.h]  r == e.r.ask IN
  {w \in
   {IF r.cross = Crossings(H, e.a, e.b) THEN "" ELSE "crossings",
    IF r.until = UntilChain(H, e.a, e.b) THEN "" ELSE "chain until",
    IF Apart(H, Set(e.q)) => r.common = Ancestor(H, Set(e.q)) THEN "" ELSE "common ancestor",
    IF e.a = e.b \/ r.segs = (LET p == <<e.a>> \o Crossings(H, e.a, e.b) \o <<e.b>> IN [j \in 1..(Len(p) - 1) |-> <<p[j], p[j + 1]>>]) THEN "" ELSE "segments",
    IF e.a = e.b \/ r.ports = Crossings(H, e.a, e.b) THEN "" ELSE "segment ports"} : w # ""}
Wrong(n, e) ==
  (IF e.r.res = n.res THEN {} ELSE {"result"})
  \cup (IF \A k \in Hs : Same(e.r.del[k].v, n.del[k].v) /\ SamePairs(e.r.del[k].e, n.del[k].e) THEN {} ELSE {"dependent deletions"})
  \cup UNION {{<<k, w>> : w \in WrongH(n, k, e.r.hs[k])} : k \in Hs}
  \cup (IF e.op = "ask" THEN WrongAsk(n, e) ELSE {})
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ st' = st /\ Reject(<<e.op, e.what>>)
     ELSE LET n == Apply(st, e) IN
       /\ st' = n
       /\ bad' = (Wrong(n, e) # {})
       /\ (bad' => Reject(Wrong(n, e)))
===============================================================================
