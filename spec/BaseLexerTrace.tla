----------------------------- MODULE BaseLexerTrace -----------------------------
EXTENDS BaseLexer, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Differ(a, b) == IF \E k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k] THEN CHOOSE k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
                ELSE IF Len(a) < Len(b) THEN Len(a) + 1 ELSE Len(b) + 1
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE LET out == Lex(e.t) IN
       /\ bad' = ~(e.r.v = "ok" /\ e.r.toks = out)
       /\ (bad' => Reject(<<"token", Differ(out, e.r.toks), SubSeq(out, Differ(out, e.r.toks), Differ(out, e.r.toks))>>))
===============================================================================
