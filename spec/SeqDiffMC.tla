------------------------------- MODULE SeqDiffMC -------------------------------
EXTENDS SeqDiff
CONSTANTS MaxA, MaxB, Sym, EmitMode
\* The two texts are typed; then the greedy search for a shortest script runs:
\* front[k] is the furthest point of the source reached on diagonal k with d
\* changes, and the script that leads there.
VARIABLES a, b, pc, d, k, front, res
vars == <<a, b, pc, d, k, front, res>>
M == Len(a) + Len(b)
Zero == [x |-> 0, q |-> <<>>]
Init == a = <<>> /\ b = <<>> /\ pc = "a" /\ d = 0 /\ k = 0 /\ front = <<>> /\ res = <<>>
TypeA == pc = "a" /\ Len(a) < MaxA /\ \E x \in Sym : a' = Append(a, x) /\ UNCHANGED <<b, pc, d, k, front, res>>
Turn == pc = "a" /\ pc' = "b" /\ UNCHANGED <<a, b, d, k, front, res>>
TypeB == pc = "b" /\ Len(b) < MaxB /\ \E x \in Sym : b' = Append(b, x) /\ UNCHANGED <<a, pc, d, k, front, res>>
Start == /\ pc = "b" /\ pc' = (IF M = 0 THEN "done" ELSE "run")
         /\ d' = 0 /\ k' = 0 /\ res' = <<>> /\ front' = [x \in (-M - 1)..(M + 1) |-> Zero] /\ UNCHANGED <<a, b>>
         /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(<<[op |-> "cmp", a |-> a, b |-> b]>>)) ELSE TRUE)
RECURSIVE Slide(_, _, _)
Slide(x, y, q) == IF x < Len(a) /\ y < Len(b) /\ Same(a, b, 1000, x, y) THEN Slide(x + 1, y + 1, Append(q, <<1, x, y>>)) ELSE <<x, y, q>>
Step ==
  /\ pc = "run"
  /\ LET down == k = -d \/ (k # d /\ front[k - 1].x < front[k + 1].x)
         x0 == IF down THEN front[k + 1].x ELSE front[k - 1].x + 1
         q0 == IF down THEN front[k + 1].q ELSE front[k - 1].q
         y0 == x0 - k
         q1 == IF 1 <= y0 /\ y0 <= Len(b) /\ down THEN Append(q0, <<2, -1, y0 - 1>>)
               ELSE IF 1 <= x0 /\ x0 <= Len(a) THEN Append(q0, <<4, x0 - 1, -1>>) ELSE q0
         e == Slide(x0, y0, q1)
     IN IF e[1] >= Len(a) /\ e[2] >= Len(b)
        THEN pc' = "done" /\ res' = e[3] /\ UNCHANGED <<a, b, d, k, front>>
        ELSE /\ front' = [front EXCEPT ![k] = [x |-> e[1], q |-> e[3]]]
             /\ (IF k = d THEN d' = d + 1 /\ k' = -(d + 1) ELSE d' = d /\ k' = k + 2)
             /\ UNCHANGED <<a, b, pc, res>>
Next == TypeA \/ Turn \/ TypeB \/ Start \/ Step
\* ---- the search ends with a shortest script, whose view is faithful
Ends == pc = "run" => d <= M
Correct == pc = "done" => /\ Shortest(a, b, 1000, res)
                        /\ Faithful(a, b, 1000, View(res))
                        /\ LET l == SelectSeq(res, LAMBDA e : e[1] = 1) P(n) == [x \in 1..Len(l) |-> l[x][n]] IN
                             /\ Longest(a, b, 1000, P(2), P(3))
                             /\ Faithful(a, b, 1000, ViewOf(P(2), P(3), Len(a), Len(b)))
                        /\ LevLen(a, b, 1000) <= Cost(res) /\ LevLen(a, b, 1000) >= Max2(Len(a), Len(b)) - LcsLen(a, b, 1000)
                        /\ LevLen(a, b, 1000) = LevLen(b, a, 1000) /\ LcsLen(a, b, 1000) = LcsLen(b, a, 1000)
Greedy == pc = "done" /\ Len(a) > 0 =>
  LET m == Leftmost(a, b, 1, <<>>) IN (Len(m) = Len(a)) = (LcsLen(a, b, 1000) = Len(a)) /\ (Len(m) = Len(a) => Placed(a, b, m))
===============================================================================
