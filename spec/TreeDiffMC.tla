------------------------------- MODULE TreeDiffMC -------------------------------
\* Pairs of trees: one is grown, the other is edited away from it.
EXTENDS TreeDiff
CONSTANTS MaxSize, MaxEdits, Vals, Kinds, EmitMode
VARIABLES a, b, n
vars == <<a, b, n>>
DropAt(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
PutAt(q, j, x) == SubSeq(q, 1, j - 1) \o <<x>> \o SubSeq(q, j, Len(q))
Splice(q, j, r) == SubSeq(q, 1, j - 1) \o r \o SubSeq(q, j + 1, Len(q))
Fresh == {Leaf(k, v) : k \in Kinds, v \in Vals}
RECURSIVE Grow(_)
Grow(t) == {[t EXCEPT !.c = Append(@, x)] : x \in Fresh} \cup UNION {{[t EXCEPT !.c[j] = x] : x \in Grow(t.c[j])} : j \in 1..Len(t.c)}
RECURSIVE Edits(_)
Edits(t) ==
  {[t EXCEPT !.v = v] : v \in Vals \ {t.v}}
  \cup {[t EXCEPT !.c = PutAt(@, j, x)] : j \in 1..(Len(t.c) + 1), x \in Fresh}
  \cup {[t EXCEPT !.c = DropAt(@, j)] : j \in 1..Len(t.c)}
  \cup {[t EXCEPT !.c = Splice(@, j, t.c[j].c)] : j \in 1..Len(t.c)}
  \cup {[t EXCEPT !.c = DropAt(PutAt(@, i, t.c[j]), IF i <= j THEN j + 1 ELSE j)] : i \in 1..(Len(t.c) + 1), j \in 1..Len(t.c)}
  \cup UNION {{[t EXCEPT !.c[j] = x] : x \in Edits(t.c[j])} : j \in 1..Len(t.c)}
Op(x, y, o) == [op |-> "diff", a |-> x, b |-> y, o |-> o]
Opt == [minh |-> 2, sim |-> 50, maxs |-> 100, del |-> 2, ins |-> 2, upd |-> 2, first |-> "top", stop |-> FALSE]
Init == \E x \in Fresh : x.v = 1 /\ x.k = 1 /\ a = x /\ b = x /\ n = 0
Emit(x, y) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(<<Op(x, y, Opt)>>)) ELSE TRUE
Next ==
  \/ n = 0 /\ Size(a) < MaxSize /\ \E x \in Grow(a) : a' = x /\ b' = x /\ n' = 0 /\ Emit(x, x)
  \/ n < MaxEdits /\ \E x \in Edits(b) : a' = a /\ b' = x /\ n' = n + 1 /\ Emit(a, x)
\* the numbering visits every node once and parents come first
Numbered == LET A == Nodes(a) IN Len(A) = Size(a) /\ \A x \in 1..Len(A) : A[x].p < x /\ (A[x].p = 0) = (x = 1)
\* a silent mapping of a tree to itself is accepted, and of different trees is not
Self == [m |-> [x \in 1..Size(a) |-> x], w |-> [x \in 1..Size(a) |-> x], cs |-> [x \in 1..Size(a) |-> "None"]]
OnlySame == LET A == Nodes(a)  B == Nodes(b) IN
  (Len(A) = Len(B) /\ SameKinds(A, B, Self.m) /\ (\A x \in 1..Len(A) : "None" \in Allowed(A, B, Self.m, x)) /\ InOrder(A, B, Self.m, Self.cs)) = (a = b)
\* no edits describe the difference of a tree and itself only
Nothing == (Len(Nodes(a)) = Len(Nodes(b)) /\ WhyEager(a, b, <<>>) = "") = (a = b)
Metric == LET p == Labels(a.c)  q == Labels(b.c) IN (Len(p) + Len(q) <= 6) => (Dist(p, q, Opt) = Dist(q, p, Opt) /\ (Dist(p, q, Opt) = 0) = (p = q))
================================================================================
