------------------------------ MODULE ImmAnyMC ------------------------------
\* Sequences of edits for documents that are not written down here: the place is a
\* number, taken among the parts the document turns out to have.
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES o, n
Src(v) == <<[b |-> RandomElement(1..v), p |-> <<>>, at |-> RandomElement(0..40)]>>
Kinds == <<"set", "insert", "append", "drop", "dropid", "pop", "swap", "move", "replace">>
Edit(v) == LET k == Kinds[RandomElement(1..Len(Kinds))] IN
  \* a version that was not made stands for the latest one
  [op |-> "edit", b |-> RandomElement(1..v), e |-> <<[k |-> k, p |-> <<>>, at |-> RandomElement(0..40), i |-> RandomElement(0..6), j |-> RandomElement(-1..3), bounded |-> FALSE,
     src |-> IF k \in {"set", "insert", "append", "replace"} THEN Src(v) ELSE <<>>]>>]
Init == o = <<>> /\ n = 0
Next == n < MaxOps /\ n' = n + 1 /\ o' = Append(o, Edit(n + 2))
EmitInv == IF n = MaxOps THEN PrintT("BEH|" \o ToJson(o)) ELSE TRUE
=============================================================================
