------------------------------ MODULE LazyTrace ------------------------------
EXTENDS Lazy, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ st = Start0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     CASE e.op \in {"crash", "hang"} -> st' = st /\ bad' = TRUE /\ Reject(<<e.op, e.what>>)
       [] e.op = "chain" -> /\ st' = st /\ bad' = (e.r.v # Run(e.c)) /\ (bad' => Reject(Run(e.c)))
       [] e.op = "pred" -> LET w == [ok |-> e.on, same |-> TRUE] IN
                           /\ st' = st /\ bad' = (e.r.v # w) /\ (bad' => Reject(w))
       [] e.op = "live" -> /\ st' = st /\ bad' = (e.r.v # e.on) /\ (bad' => Reject(e.on))
       [] e.op = "msg" -> LET w == e.m \o <<32, 97, 116, 32>> \o e.f \o <<58>> \o e.l \o <<32, 105, 110, 32>> \o e.fn IN
                          /\ st' = st /\ bad' = (e.r.v # w) /\ (bad' => Reject(w))
       [] OTHER -> /\ st' = Apply(st, e)
                   /\ bad' = (e.r # st'.ret)
                   /\ bad' => Reject(st'.ret)
===============================================================================
