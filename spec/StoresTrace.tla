------------------------------ MODULE StoresTrace ------------------------------
EXTENDS Stores, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ st = Start0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     CASE e.op \in {"crash", "hang"} -> st' = st /\ bad' = TRUE /\ Reject(<<e.op, e.what>>)
       [] "u" \in DOMAIN e -> st' = st /\ bad' = (e.r.v # IdOp(e)) /\ (bad' => Reject(IdOp(e)))
       [] OTHER -> /\ st' = Apply(st, e)
                   /\ bad' = (e.r # [v |-> st'.ret, a |-> st'.a, b |-> st'.b, na |-> Len(st'.a), nb |-> Len(st'.b), ok |-> TRUE])
                   /\ bad' => Reject(st')
===============================================================================
