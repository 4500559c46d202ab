--------------------------------- MODULE Maps ---------------------------------
\* Key-value maps (kind "map"), two-way maps ("one": one to one, "many": many
\* left keys per right value, "stable": the same, remembering insertion order)
\* and arrays indexed by a finite key domain ("arr").  The content is a
\* sequence of <<key, value>> pairs in insertion order.  Property C03.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Start0 == [m |-> <<>>, ret |-> "ok"]
Z(m, r) == [m |-> m, ret |-> r]
Keys(m) == {m[k][1] : k \in 1..Len(m)}
Vals(m) == {m[k][2] : k \in 1..Len(m)}
At(m, x) == m[CHOOSE k \in 1..Len(m) : m[k][1] = x][2]
Put(m, x, y) == IF x \in Keys(m) THEN [k \in 1..Len(m) |-> IF m[k][1] = x THEN <<x, y>> ELSE m[k]] ELSE Append(m, <<x, y>>)
Del(m, x) == SelectSeq(m, LAMBDA p : p[1] # x)
DelV(m, y) == SelectSeq(m, LAMBDA p : p[2] # y)
Lefts(m, y) == LET s == SelectSeq(m, LAMBDA p : p[2] = y) IN [k \in 1..Len(s) |-> s[k][1]]
Apply(kind, st, o) ==
  LET m == st.m IN
  CASE o.op = "put" -> Z(Put(m, o.x, o.y), "ok")
    [] o.op = "index" -> Z(Put(m, o.x, o.y), "ok")
    [] o.op = "adput" -> Z(Put(m, o.x, o.y), "ok")
    [] o.op = "seqadd" -> Z(IF o.x \in Keys(m) THEN m ELSE Put(m, o.x, o.y), "ok")
    [] o.op = "getor" -> LET m2 == IF o.x \in Keys(m) THEN m ELSE Put(m, o.x, o.y) IN Z(m2, At(m2, o.x))
    [] o.op = "unique" -> IF \/ o.x \in Keys(m) \/ (kind = "one" /\ o.y \in Vals(m)) THEN Z(m, "err") ELSE Z(Put(m, o.x, o.y), "ok")
    [] o.op = "pop" -> IF o.x \in Keys(m) THEN Z(Del(m, o.x), At(m, o.x)) ELSE Z(m, "none")
    [] o.op = "get" -> Z(m, IF o.x \in Keys(m) THEN At(m, o.x) ELSE "none")
    [] o.op = "at" -> Z(m, IF o.x \in Keys(m) THEN At(m, o.x) ELSE "err")
    [] o.op = "has" -> Z(m, o.x \in Keys(m))
    [] o.op = "erase" -> Z(Del(m, o.x), "ok")
    [] o.op = "eraser" -> Z(DelV(m, o.y), "ok")
    [] o.op = "hasr" -> Z(m, o.y \in Vals(m))
    [] o.op = "left" -> Z(m, Lefts(m, o.y))
    [] o.op = "atleft" -> Z(m, IF o.y \in Vals(m) THEN Lefts(m, o.y) ELSE "err")
    [] o.op = "move" -> IF o.x \in Keys(m) THEN Z(Put(m, o.x, o.y), TRUE) ELSE Z(m, FALSE)
    [] o.op = "clear" -> Z(<<>>, "ok")
    [] o.op = "same" -> Z(m, "ok")
Can(kind, st, o) ==
  CASE o.op \in {"put", "index", "adput", "seqadd", "getor", "pop", "clear", "same"} -> kind = "map"
    [] o.op \in {"hasr", "left", "atleft", "eraser"} -> kind # "map"
    [] o.op = "move" -> kind \in {"many", "stable"}
    [] OTHER -> TRUE
Bag(q, s) == Len(q) = Len(s) /\ {q[k] : k \in 1..Len(q)} = {s[k] : k \in 1..Len(s)}
             /\ \A x \in {q[k] : k \in 1..Len(q)} : Cardinality({k \in 1..Len(q) : q[k] = x}) = Cardinality({k \in 1..Len(s) : s[k] = x})
First(m) == [k \in 1..Len(m) |-> m[k][1]]
Second(m) == [k \in 1..Len(m) |-> m[k][2]]
===============================================================================
