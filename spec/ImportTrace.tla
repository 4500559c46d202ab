----------------------------- MODULE ImportTrace -----------------------------
\* Recorded imports against the specification: the exact tree when directories are
\* listed in a known order, otherwise the documents and where they lie.
EXTENDS Import, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
At(a, k) == IF k <= Len(a) THEN a[k] ELSE "end"
Differ(a, b) == CHOOSE k \in 1..(Len(a) + 1) : At(a, k) # At(b, k) /\ \A j \in 1..(k - 1) : a[j] = At(b, j)
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE IF e.r.v = "err" THEN bad' = TRUE /\ Reject(<<"error", e.r.what>>)
     ELSE LET want == Imported(e) out == e.r.out IN
       IF e.sorted /\ ~Same(want, out) THEN bad' = TRUE /\ Reject(<<"import", ToString(At(want, Differ(want, out))), ToString(At(out, Differ(want, out)))>>)
       ELSE IF Docs(out) # Docs(want) \/ DocCount(out) # DocCount(want) THEN bad' = TRUE /\ Reject(<<"documents", Docs(want), Docs(out), DocCount(out)>>)
       ELSE /\ bad' = ~Nested(e, out) /\ (bad' => Reject(<<"nesting">>))
===============================================================================
