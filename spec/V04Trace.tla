------------------------------- MODULE V04Trace -------------------------------
EXTENDS Ownership, IOUtils
X == INSTANCE ScopeExit
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ st = Start0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     CASE e.op \in {"crash", "hang"} -> st' = st /\ bad' = TRUE /\ Reject(<<e.op, e.what>>)
       [] e.op = "prog" -> /\ st' = st
                           /\ bad' = (e.r.v # X!Events(e.b))
                           /\ bad' => Reject(X!Events(e.b))
       [] OTHER -> /\ st' = Apply(st, e)
                   /\ bad' = (e.r # Obs(st'))
                   /\ bad' => Reject(Obs(st'))
===============================================================================
