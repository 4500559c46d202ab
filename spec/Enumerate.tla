----------------------------- MODULE Enumerate -----------------------------
\* Enumeration of a sequence of n elements (the k-th one, from 0, has value
\* 10 + 3k) with a leading and b trailing elements left out.  Property V02.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, MaxSkip, Containers, Hows, Depth, EmitMode

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Val(k) == 10 + 3 * k
Selected(q) == IF q.a + q.b >= q.n THEN 0 ELSE q.n - q.a - q.b

\* q = [open, n, a, b, c, pos, ok]; pos counts the elements already passed
Start0 == [open |-> FALSE, n |-> 0, a |-> 0, b |-> 0, c |-> "vector", pos |-> 0]

More(q) == q.pos < Selected(q)
At(q, p) == IF p < 0 \/ p >= Selected(q) THEN -1 ELSE Val(q.a + p)
Random(q) == q.c # "list"

ItemAt(q, p) ==
  LET base == [index |-> p, base |-> q.a + p, size |-> Selected(q), first |-> p = 0,
               last |-> p = Selected(q) - 1, value |-> At(q, p)] IN
  IF Random(q)
  THEN base @@ [prev |-> [k \in 1..7 |-> At(q, p - (k - 1))],
                next |-> [k \in 1..7 |-> At(q, p + (k - 1))],
                p |-> At(q, p - 1), x |-> At(q, p + 1)]
  ELSE base @@ [prev |-> <<>>, next |-> <<>>]

Enabled(q, o) ==
  CASE o.op = "open" -> TRUE
    [] o.op = "restart" -> q.open
    [] o.op \in {"cur", "step"} -> q.open /\ More(q)
    [] OTHER -> q.open

Apply(q, o) ==
  CASE o.op = "open" -> [open |-> TRUE, n |-> o.n, a |-> o.a, b |-> o.b, c |-> o.c, pos |-> 0]
    [] o.op = "step" -> [q EXCEPT !.pos = @ + 1]
    [] o.op = "restart" -> [q EXCEPT !.pos = 0]
    [] OTHER -> q

\* result the operation must report (given the state before it)
Result(q, o) ==
  CASE o.op \in {"open", "step", "restart"} -> [v |-> TRUE]
    [] o.op = "more" -> [v |-> More(q)]
    [] o.op = "cur" -> [c |-> ItemAt(q, q.pos), m |-> ItemAt(q, q.pos)]
    [] o.op = "all" -> [bsize |-> q.n, v |-> [p \in 1..Selected(q) |-> ItemAt(q, p - 1)]]

Ops == [op : {"open"}, n : 0..MaxN, a : 0..MaxSkip, b : 0..MaxSkip, c : Containers, how : Hows]
       \cup [op : {"cur", "more", "step", "restart", "all"}]

VARIABLES st, h, seen
vars == <<st, h, seen>>
Init == st = Start0 /\ h = <<>> /\ seen = <<>>
Emit(x) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(x)) ELSE TRUE
Next == \E o \in Ops :
  /\ Len(h) < Depth
  /\ Enabled(st, o)
  /\ o.op = "open" => ~st.open
  /\ st' = Apply(st, o)
  /\ h' = Append(h, o)
  \* the elements passed over since the view was opened
  /\ seen' = CASE o.op \in {"open", "restart"} -> <<>>
               [] o.op = "step" -> Append(seen, At(st, st.pos))
               [] OTHER -> seen
  /\ Emit(h')
View == <<st, seen>>
EmitInv == (EmitMode = "depth" /\ Len(h) = Depth) => PrintT("BEH|" \o ToJson(h))

\* The property on the specification: a finished walk saw exactly the selected
\* elements of the base sequence, in order.
Base == [k \in 1..st.n |-> Val(k - 1)]
SelectedSeq == SubSeq(Base, st.a + 1, st.n - st.b)
WalkExact == (st.open /\ ~More(st)) => seen = SelectedSeq
WalkPrefix == st.open => (Len(seen) = st.pos /\ st.pos <= Len(SelectedSeq)
                          /\ seen = SubSeq(SelectedSeq, 1, st.pos))
MarksExact == (st.open /\ More(st)) =>
  /\ ItemAt(st, st.pos).first <=> seen = <<>>
  /\ ItemAt(st, st.pos).last <=> Len(seen) + 1 = Len(SelectedSeq)
  /\ (Random(st) /\ seen # <<>>) => ItemAt(st, st.pos).p = seen[Len(seen)]
=============================================================================
