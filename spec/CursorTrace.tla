------------------------------- MODULE CursorTrace -------------------------------
EXTENDS Cursor, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE /\ st = Begin(Scen[s].cfg.sel, Scen[s].cfg.toks)
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ st' = st /\ Reject(<<e.op, e.what>>)
     ELSE LET n == Apply(st, e) IN
       /\ st' = n
       /\ bad' = ~(ToString(e.r.v) = ToString(n.ret) /\ e.r.pos = Num(n, 0) /\ e.r.fin = (n.p = 0))
       /\ (bad' => Reject(<<n.ret, Num(n, 0)>>))
===============================================================================
