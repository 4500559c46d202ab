---------------------------- MODULE JsonTextTrace ----------------------------
EXTENDS JsonText, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Names(q) == {q[j] : j \in 1..Len(q)}
Ok(e) ==
  CASE e.op \in {"crash", "hang"} -> FALSE
    [] e.op = "render" -> e.r.st = "ok" /\ RenderOk(e.v, e.o, e.r.v)
    [] e.op = "filter" -> e.r.st = "ok" /\ Same(Filter(e.v, Names(e.names)), e.r.v)
Expected(e) ==
  CASE e.op \in {"crash", "hang"} -> e.what
    [] e.op = "render" -> IF e.r.st = "ok" THEN Parse(e.r.v) ELSE e.r
    [] e.op = "filter" -> Filter(e.v, Names(e.names))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
       /\ bad' = ~Ok(e)
       /\ bad' => Reject(Expected(e))
=============================================================================
