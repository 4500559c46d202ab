------------------------------- MODULE LayoutTrace -------------------------------
EXTENDS Layout, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE /\ st = Start
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Why(n, e) ==
  IF e.r.res # n.res THEN "result"
  ELSE IF e.op = "print" THEN Judge(n, e, e.r.out)
  ELSE ""
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ st' = st /\ Reject(<<e.op, e.what>>)
     ELSE LET n == Apply(st, e) IN
       /\ st' = n
       /\ bad' = (Why(n, e) # "")
       /\ (bad' => Reject(Why(n, e)))
================================================================================
