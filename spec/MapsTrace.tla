------------------------------- MODULE MapsTrace -------------------------------
EXTENDS Maps, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ st = Start0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] kind == Scen[s].cfg.kind IN
     IF e.op \in {"crash", "hang"} THEN st' = st /\ bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE /\ st' = Apply(kind, st, e)
          /\ bad' = ~(/\ Bag(e.r.m, st'.m) /\ e.r.n = Len(st'.m)
                      /\ Bag(e.r.k, First(st'.m))
                      /\ kind = "stable" => e.r.k = First(st'.m)
                      /\ Bag(e.r.vs, Second(st'.m))
                      /\ e.r.sorted => \A k \in 1..(Len(e.r.k) - 1) : e.r.k[k] < e.r.k[k + 1]
                      /\ e.r.ok
                      /\ IF e.op \in {"left", "atleft"} /\ kind \in {"many", "stable"} /\ ToString(st'.ret) # ToString("err")
                         THEN Bag(e.r.v, st'.ret) ELSE e.r.v = st'.ret)
          /\ bad' => Reject(st')
===============================================================================
