------------------------------ MODULE RegistryTrace ------------------------------
EXTENDS Registry, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE /\ st = Begin
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ st' = st /\ Reject(<<e.op, e.what>>)
     ELSE LET n == Apply(st, e) IN
       /\ st' = n
       \* after every request the whole registry is dumped by identifier
       /\ bad' = ~(ToString(e.r.v) = ToString(n.ret) /\ e.r.all = n.q)
       /\ (bad' => Reject(<<n.ret, n.q>>))
===============================================================================
