---------------------------- MODULE SetAlgebraTrace ----------------------------
EXTENDS SetAlgebra, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ st = Start0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN st' = st /\ bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE /\ st' = Apply(Range(Scen[s].cfg.dom), st, e)
          /\ bad' = ~(/\ Lists(e.r.a, st'.a) /\ Lists(e.r.b, st'.b)
                      /\ e.r.v = st'.ret /\ e.r.n = Cardinality(st'.a) /\ e.r.e = (st'.a = {})
                      /\ e.r.hits = Cardinality(st'.a) /\ e.r.extra = 0)
          /\ bad' => Reject(st')
===============================================================================
