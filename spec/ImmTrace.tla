------------------------------ MODULE ImmTrace ------------------------------
\* Recorded histories of versions against the specification.
EXTENDS Imm, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
\* tab, roots: the store and the versions so far; known: per version, the nodes that
\* are recorded as parents: added or built on the way to it and not replaced since
VARIABLES s, i, bad, st
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE /\ st = [tab |-> <<>>, roots |-> <<>>, known |-> <<>>]
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Prefix(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : Count(a, x) = Count(b, x)
\* the sources of the edits, in the order they are mentioned
SrcFrom(e, k) == LET F[j \in 0..Len(e.r.e)] == IF j = 0 THEN 0 ELSE F[j - 1] + Len(e.r.e[j].src) IN F[k - 1]
SrcOf(e, k) == SubSeq(e.r.src, SrcFrom(e, k) + 1, SrcFrom(e, k) + Len(e.r.e[k].src))
RECURSIVE ApplyAll(_, _, _)
ApplyAll(t, e, k) == IF k > Len(e.r.e) THEN t ELSE ApplyAll(EditTree(t, e.r.e[k], SrcOf(e, k)), e, k + 1)
AnyRefused(t, e) == \E k \in 1..Len(e.r.e) : Refused(Walk(t, e.r.e[k].p).s, e.r.e[k])
Wanted(e) == IF e.op = "edit" THEN ApplyAll(Expand(st.tab, st.roots[e.r.b]), e, 1) ELSE e.r.src[1]
\* an edit that would leave its node as it is may be refused
NoChange(t, e) == \E k \in 1..Len(e.r.e) : EditTree(t, e.r.e[k], SrcOf(e, k)) = t
NewTrail(tab, root, x) == Trail(tab, root, IF x.k = "replace" THEN SubSeq(x.p, 1, Len(x.p) - 1) ELSE x.p)
KnownAfter(e, tab, root) ==
  IF e.op = "edit" THEN (st.known[e.r.b] \cup (Len(st.tab) + 1)..Len(tab) \cup UNION {NewTrail(tab, root, e.r.e[k]) : k \in 1..Len(e.r.e)})
                        \ UNION {Trail(st.tab, st.roots[e.r.b], e.r.e[k].p) : k \in 1..Len(e.r.e)}
  ELSE (IF e.c = 0 THEN {} ELSE st.known[e.c]) \cup Below(tab, root)
Judge(e) ==
  IF e.op \in {"crash", "hang"} THEN <<e.op, e.what>>
  ELSE LET old == IF e.op = "edit" THEN Expand(st.tab, st.roots[e.r.b]) ELSE <<>> IN
  IF e.r.v = "none" THEN <<>>
  ELSE IF e.r.v = "bad" THEN <<"unusable version", e.r.what>>
  ELSE IF e.r.v = "err" THEN
    IF e.op # "edit" THEN <<"error", e.r.what>>
    ELSE IF AnyRefused(old, e) \/ NoChange(old, e) THEN <<>>
    ELSE <<"error", e.r.what>>
  ELSE IF e.r.v = "same" THEN IF ~AnyRefused(old, e) /\ Wanted(e) = old THEN <<>> ELSE <<"nothing changed">>
  ELSE IF e.op = "edit" /\ AnyRefused(old, e) THEN <<"not refused">>
  ELSE LET tab == e.r.tab root == e.r.roots[Len(e.r.roots)] want == Wanted(e) got == Expand(tab, root) known == KnownAfter(e, tab, root) nodes == Below(tab, root) IN
    IF ~Prefix(st.tab, tab) THEN <<"a node of the store changed", CHOOSE j \in 1..Len(st.tab) : j > Len(tab) \/ st.tab[j] # tab[j]>>
    ELSE IF Len(e.r.roots) # Len(st.roots) + 1 \/ ~Prefix(st.roots, e.r.roots) THEN <<"an earlier version changed", st.roots, e.r.roots>>
    ELSE IF Cardinality(Range(tab)) # Len(tab) THEN <<"two nodes with one content", CHOOSE x \in (1..Len(tab)) \X (1..Len(tab)) : x[1] < x[2] /\ tab[x[1]] = tab[x[2]]>>
    ELSE IF got # want THEN <<"content">>
    ELSE IF e.r.back # want THEN <<"content converted back">>
    ELSE IF \E x \in Range(e.r.places) : x[1] # x[2] THEN <<"a path leads elsewhere", CHOOSE x \in Range(e.r.places) : x[1] # x[2]>>
    ELSE IF ~SameBag(Tail(Spots(tab, root, 0)), [j \in 1..Len(e.r.places) |-> <<e.r.places[j][1], e.r.places[j][3]>>]) THEN <<"places", Tail(Spots(tab, root, 0)), e.r.places>>
    ELSE IF \E n \in 1..Len(tab) : \E p \in Range(e.r.par[n].ps) : n \notin Kids(tab[p]) THEN <<"not a parent", CHOOSE n \in 1..Len(tab) : \E p \in Range(e.r.par[n].ps) : n \notin Kids(tab[p])>>
    ELSE IF \E n \in 1..Len(tab) : \E x \in Range(e.r.par[n].paths) : x[1] # n \/ x[3] # n THEN <<"path to elsewhere", CHOOSE n \in 1..Len(tab) : \E x \in Range(e.r.par[n].paths) : x[3] # n>>
    ELSE LET miss == {x \in nodes \X nodes : x[1] \in Kids(tab[x[2]]) /\ Followed(tab[x[1]]) /\ x[2] \in known /\ x[2] \notin Range(e.r.par[x[1]].ps)} IN
      IF miss # {} THEN <<"parent not recorded", miss>> ELSE <<>>
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] why == Judge(e) IN
     IF why # <<>> THEN bad' = TRUE /\ st' = st /\ Reject(why)
     ELSE /\ bad' = FALSE
          /\ st' = IF e.r.v # "ok" THEN st ELSE [tab |-> e.r.tab, roots |-> e.r.roots, known |-> Append(st.known, KnownAfter(e, e.r.tab, e.r.roots[Len(e.r.roots)]))]
=============================================================================
