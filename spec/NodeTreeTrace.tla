------------------------------ MODULE NodeTreeTrace ------------------------------
EXTENDS NodeTree, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE /\ st = Start
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ st' = st /\ Reject(<<e.op, e.what>>)
     ELSE LET n == Apply(st, e) IN
       /\ st' = n
       /\ LET w == IF e.r.ret # n.ret THEN <<"returned", n.ret>>
                   ELSE IF e.r.depth # Len(n.pend) THEN <<"depth", Len(n.pend)>>
                   ELSE IF e.r.dump # Dump(n) THEN <<"queries", Dump(n)>>
                   ELSE IF \E k \in 1..Size(n) : e.r.tree[k] # Walk(n, k, 0, 0) THEN <<"tree", [k \in 1..Size(n) |-> Walk(n, k, 0, 0)]>>
                   ELSE <<>>
          IN bad' = (w # <<>>) /\ (bad' => Reject(w))
===============================================================================
