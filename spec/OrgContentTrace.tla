--------------------------- MODULE OrgContentTrace ---------------------------
\* Recorded: the content of a document as read, its formatted text, and the same
\* again for that text and once more.
EXTENDS OrgContent, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Differ(a, b) == IF \E k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k] THEN CHOOSE k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
                ELSE IF Len(a) < Len(b) THEN Len(a) + 1 ELSE Len(b) + 1
At(a, k) == IF k <= Len(a) THEN a[k] ELSE "end"
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE IF e.r.v = "err" THEN bad' = TRUE /\ Reject(<<"error", e.r.what>>)
     ELSE LET c1 == Spoken(e.r.c1) c2 == Spoken(e.r.c2) c3 == Spoken(e.r.c3) want == IF e.op = "doc" /\ Plain(e.d) THEN SayDoc(e.d) ELSE c1 IN
       IF e.op = "doc" /\ e.s # DocText(e.d) THEN bad' = TRUE /\ Assert(FALSE, <<"text of the document", e.s, DocText(e.d)>>)
       ELSE IF ~Same(want, c1) THEN bad' = TRUE /\ Reject(<<"content", At(want, Differ(want, c1)), At(c1, Differ(want, c1)), e.s>>)
       ELSE IF ~Same(c1, c2) THEN bad' = TRUE /\ Reject(<<"content after formatting", At(c1, Differ(c1, c2)), At(c2, Differ(c1, c2)), e.s>>)
       ELSE IF ~Same(c2, c3) THEN bad' = TRUE /\ Reject(<<"content after formatting again", e.s>>)
       ELSE /\ bad' = ~(e.r.same12 /\ e.r.same23)
            /\ (bad' => Reject(<<"text changes when formatted again", e.r.t1, e.r.t2>>))
===============================================================================
