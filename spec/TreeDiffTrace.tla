------------------------------ MODULE TreeDiffTrace ------------------------------
EXTENDS TreeDiff, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE LET one == Why(e.a, e.b, e.o, e.r)  two == WhyEager(e.a, e.b, e.r.edits) IN
       /\ bad' = (one # "" \/ two # "")
       /\ (bad' => Reject(<<one, two>>))
================================================================================
