------------------------------ MODULE LoggingTrace ------------------------------
EXTENDS Logging, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE /\ st = Start
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
\* e.r.d[k] = what sink k got during the step
Same(n, k, got) == LET w == Got(n, k) IN
  IF n.kind[k] = "mem" THEN got = w ELSE got = Flat([j \in 1..Len(w) |-> w[j].text])
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ st' = st /\ Reject(<<e.op, e.what>>)
     ELSE IF e.op = "par" THEN /\ st' = st /\ bad' = ~ParOk(st, e, e.r)
                               /\ (bad' => Reject(<<"threads", st.q, st.f>>))
     ELSE LET n == Apply(st, e) IN
       /\ st' = n
       /\ bad' = ~(e.r.v = n.ret /\ Len(e.r.d) = Len(n.kind) /\ \A k \in 1..Len(n.kind) : Same(n, k, e.r.d[k]))
       /\ (bad' => Reject(<<n.ret, [k \in 1..Len(n.kind) |-> Got(n, k)]>>))
===============================================================================
