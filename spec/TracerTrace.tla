----------------------------- MODULE TracerTrace -----------------------------
EXTENDS Tracer, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, dead, log
Suffix(q, n) == SubSeq(q, n + 1, Len(q))
Why(e) ==
    CASE e.op = "threads" ->
           IF e.r.v # "ok" THEN e.r.v
           ELSE IF Len(e.r.log) < Len(log) \/ SubSeq(e.r.log, 1, Len(log)) # log THEN "earlier entries changed"
           ELSE IF e.r.last # (IF e.r.log = <<>> THEN <<>> ELSE <<e.r.log[Len(e.r.log)].n>>) THEN "last event"
           ELSE Judge(Len(e.prog), e.r.calls, Suffix(e.r.log, Len(log)))
      [] e.op = "restart" -> IF e.r.v = "ok" /\ e.r.log = <<>> THEN "" ELSE "not empty"
      [] e.op = "export" -> IF e.r.v = "ok" /\ e.r.meta = e.meta /\ e.r.log = [k \in 1..Len(log) |-> <<log[k].n, log[k].ph, log[k].th, log[k].ts, log[k].dur>>] THEN "" ELSE "export differs"
      [] OTHER -> ToString(e)
TInit == s \in 1..Len(Tr) /\ i = 0 /\ dead = FALSE /\ log = <<>>
TNext == /\ ~dead /\ i < Len(Tr[s].ev) /\ i' = i + 1 /\ s' = s
         /\ LET e == Tr[s].ev[i + 1]
                w == Why(e)
            IN IF w = "" THEN dead' = FALSE /\ log' = (IF e.op = "export" THEN log ELSE e.r.log)
               ELSE dead' = TRUE /\ log' = log /\ PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o w)
==============================================================================
