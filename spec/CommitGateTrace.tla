---------------------------- MODULE CommitGateTrace ----------------------------
EXTENDS CommitGate, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, dead
Why(e) == IF e.op # "msg" THEN ToString(e)
          ELSE IF e.extra # 0 THEN (IF e.r.v = "usage" /\ e.r.keep /\ ~e.r.saved THEN "" ELSE "usage")
          ELSE LET o == Outcome(e.t) IN IF e.r = o THEN "" ELSE ToString(<<o.v, o.saved, o.files>>)
TInit == s \in 1..Len(Tr) /\ i = 0 /\ dead = FALSE
TNext == /\ ~dead /\ i < Len(Tr[s].ev) /\ i' = i + 1 /\ s' = s
         /\ LET w == Why(Tr[s].ev[i + 1])
            IN IF w = "" THEN dead' = FALSE ELSE dead' = TRUE /\ PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o w)
================================================================================
