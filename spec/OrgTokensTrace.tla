----------------------------- MODULE OrgTokensTrace -----------------------------
EXTENDS OrgTokens, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Differ(a, b) == IF \E k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k] THEN CHOOSE k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
                ELSE IF Len(a) < Len(b) THEN Len(a) + 1 ELSE Len(b) + 1
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE IF e.r.v = "err" THEN bad' = TRUE /\ Reject(<<"error", e.r.what>>)
     ELSE LET out == Structural(e.r.base) IN
       /\ bad' = (e.r.out # out)
       /\ (bad' => Reject(<<"token", Differ(out, e.r.out), SubSeq(out, Differ(out, e.r.out), Differ(out, e.r.out))>>))
===============================================================================
