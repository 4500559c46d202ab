----------------------------- MODULE RangeIndexMC -----------------------------
EXTENDS RangeIndex
CONSTANTS Top, MaxSeg, EmitMode
\* Ranges are placed one by one (into one of two groups) and the sequence is
\* then swept from left to right, one position at a time.
VARIABLES gs, w, ph
vars == <<gs, w, ph>>
Init == gs = <<[kind |-> 1, segs |-> <<>>], [kind |-> 2, segs |-> <<>>]>> /\ w = Sweep0(0) /\ ph = "place"
Total == Len(gs[1].segs) + Len(gs[2].segs)
Place == /\ ph = "place" /\ Total < MaxSeg
         /\ \E g \in 1..2, k \in 7..8, f \in 0..Top, l \in 0..Top : f <= l /\ gs' = [gs EXCEPT ![g].segs = Append(@, <<k, f, l>>)]
         /\ UNCHANGED <<w, ph>>
Emit == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(gs)) ELSE TRUE
Begin == ph = "place" /\ ph' = "sweep" /\ UNCHANGED <<gs, w>> /\ Emit
Move == ph = "sweep" /\ w.p <= Top /\ w' = Step(gs, w) /\ UNCHANGED <<gs, ph>>
Next == Place \/ Begin \/ Move
\* at every position the finished segments and the open one are the runs of the prefix swept
Exact == ph = "sweep" => {<<s[1], s[2]>> : s \in {Close(gs, w)[k] : k \in 1..Len(Close(gs, w))}} = Runs(gs, 0, w.p - 1)
Ordered == \A k \in 1..(Len(w.out) - 1) : w.out[k][2] < w.out[k + 1][1]
Named == \A k \in 1..Len(w.out) : \A p \in w.out[k][1]..w.out[k][2] : Tags(gs, p) = w.out[k][3]
===============================================================================
