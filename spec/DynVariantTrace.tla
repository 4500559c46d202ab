------------------------- MODULE DynVariantTrace -------------------------
EXTENDS DynVariant, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ st = Start0 /\ h = <<>> /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ UNCHANGED <<s, h>>
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"}
     THEN st' = st /\ bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE /\ st' = Apply(st, e)
          /\ bad' = (e.r # Obs(st'))
          /\ bad' => Reject(Obs(st'))
==========================================================================
