----------------------------- MODULE SeqOpsTrace -----------------------------
EXTENDS SeqOps, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ st = Start0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     CASE e.op \in {"crash", "hang"} -> st' = st /\ bad' = TRUE /\ Reject(<<e.op, e.what>>)
       [] e.op = "spanmove" -> LET w == SpanMove(e.tot, e.sp, e) IN
             /\ st' = st /\ bad' = (e.r.v # [k \in 1..w.n |-> w.f + k - 1]) /\ (bad' => Reject(w))
       [] e.op = "sl" -> LET w == SliceFacts(e.a, e.b, e.x) IN
             /\ st' = st /\ bad' = (e.r.v # w) /\ (bad' => Reject(w))
       [] e.op = "bi" -> LET w == BackFacts(e.a, e.b) IN
             /\ st' = st /\ bad' = (e.r.v # w) /\ (bad' => Reject(w))
       [] e.op \in {"sorted", "sortedby", "sortedcmp"} ->
             /\ st' = st /\ bad' = ~(e.r.q = st.q /\ Sorted(st, e, e.r.v)) /\ (bad' => Reject(st.q))
       [] OTHER -> /\ st' = Apply(st, e)
                   /\ bad' = (e.r # [q |-> st'.q, v |-> st'.ret])
                   /\ bad' => Reject(st')
===============================================================================
