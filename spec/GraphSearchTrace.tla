--------------------------- MODULE GraphSearchTrace ---------------------------
EXTENDS GraphSearch, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
SetOf(q) == {q[j] : j \in 1..Len(q)}
Want(e) == CASE e.op = "search" -> Calls(e.alg, e.g, e.r0, SetOf(e.on))
             [] e.op = "fire" -> Fired(SetOf(e.on), e.e)
             [] OTHER -> <<"no such event">>
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE /\ bad' = (e.r.v # Want(e))
          /\ bad' => Reject(Want(e))
===============================================================================
