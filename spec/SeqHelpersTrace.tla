---------------------------- MODULE SeqHelpersTrace ----------------------------
EXTENDS SeqHelpers, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, dead
Ops == {"walk", "ansi", "left", "right", "both", "part", "index", "first", "drop", "unique", "splice", "cond"}
Why(e) == IF e.op \notin Ops THEN ToString(e)
          ELSE LET a == Answer(e) IN IF e.r.v = a.v /\ ToString(e.r.x) = ToString(a.x) THEN "" ELSE ToString(a)
TInit == s \in 1..Len(Tr) /\ i = 0 /\ dead = FALSE
TNext == /\ ~dead /\ i < Len(Tr[s].ev) /\ i' = i + 1 /\ s' = s
         /\ LET w == Why(Tr[s].ev[i + 1])
            IN IF w = "" THEN dead' = FALSE ELSE dead' = TRUE /\ PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o w)
================================================================================
