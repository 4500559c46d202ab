--------------------------- MODULE EnumerateTrace ---------------------------
EXTENDS Enumerate, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ st = Start0 /\ h = <<>> /\ seen = <<>> /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ UNCHANGED <<s, h, seen>>
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"}
     THEN st' = st /\ bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE /\ st' = Apply(st, e)
          /\ bad' = (e.r # Result(st, e))
          /\ bad' => Reject(Result(st, e))
=============================================================================
