------------------------------ MODULE JsonText ------------------------------
\* JSON values, their textual form, the compact renderer and the field filter.
\* Property V03.  Text is a sequence of byte values.
\*   [t |-> "z"]  null                 [t |-> "b", b |-> BOOLEAN]
\*   [t |-> "n", n |-> literal bytes]  [t |-> "s", s |-> bytes]
\*   [t |-> "a", a |-> seq of values]  [t |-> "o", o |-> seq of [k, v], keys distinct]
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Null == [t |-> "z"]
WS == {32, 9, 10, 13}
Digits == 48..57
NumChars == Digits \cup {43, 45, 46, 69, 101}
Fail == [ok |-> FALSE, v |-> Null, p |-> 0]
Got(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

RECURSIVE SkipWs(_, _)
SkipWs(T, p) == IF p <= Len(T) /\ T[p] \in WS THEN SkipWs(T, p + 1) ELSE p

Lit(T, p, lit) == p + Len(lit) - 1 <= Len(T) /\ SubSeq(T, p, p + Len(lit) - 1) = lit

HexVal(c) == IF c \in Digits THEN c - 48
             ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Esc == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
          CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]

\* string body from p (after the quote) up to and including the closing quote
RECURSIVE PStr(_, _, _)
PStr(T, p, acc) ==
  IF p > Len(T) THEN Fail
  ELSE IF T[p] = 34 THEN Got(acc, p + 1)
  ELSE IF T[p] < 32 THEN Fail
  ELSE IF T[p] # 92 THEN PStr(T, p + 1, Append(acc, T[p]))
  ELSE IF p + 1 > Len(T) THEN Fail
  ELSE IF T[p + 1] \in DOMAIN Esc THEN PStr(T, p + 2, Append(acc, Esc[T[p + 1]]))
  ELSE IF T[p + 1] = 117 /\ p + 5 <= Len(T) /\ \A d \in 2..5 : HexVal(T[p + d]) # -1
       THEN PStr(T, p + 6, acc \o Utf8(HexVal(T[p + 2]) * 4096 + HexVal(T[p + 3]) * 256
                                       + HexVal(T[p + 4]) * 16 + HexVal(T[p + 5])))
  ELSE Fail

RECURSIVE NumEnd(_, _)
NumEnd(T, p) == IF p <= Len(T) /\ T[p] \in NumChars THEN NumEnd(T, p + 1) ELSE p

RECURSIVE PVal(_, _), PArr(_, _, _), PObj(_, _, _)
PVal(T, p0) ==
  LET p == SkipWs(T, p0) IN
  IF p > Len(T) THEN Fail
  ELSE CASE Lit(T, p, <<110, 117, 108, 108>>) -> Got(Null, p + 4)
         [] Lit(T, p, <<116, 114, 117, 101>>) -> Got([t |-> "b", b |-> TRUE], p + 4)
         [] Lit(T, p, <<102, 97, 108, 115, 101>>) -> Got([t |-> "b", b |-> FALSE], p + 5)
         [] T[p] = 34 -> LET r == PStr(T, p + 1, <<>>) IN
                         IF r.ok THEN Got([t |-> "s", s |-> r.v], r.p) ELSE Fail
         [] T[p] \in Digits \cup {45} ->
              LET q == NumEnd(T, p) IN Got([t |-> "n", n |-> SubSeq(T, p, q - 1)], q)
         [] T[p] = 91 -> LET q == SkipWs(T, p + 1) IN
              IF q <= Len(T) /\ T[q] = 93 THEN Got([t |-> "a", a |-> <<>>], q + 1)
              ELSE PArr(T, q, <<>>)
         [] T[p] = 123 -> LET q == SkipWs(T, p + 1) IN
              IF q <= Len(T) /\ T[q] = 125 THEN Got([t |-> "o", o |-> <<>>], q + 1)
              ELSE PObj(T, q, <<>>)
         [] OTHER -> Fail
PArr(T, p, acc) ==
  LET r == PVal(T, p) IN
  IF ~r.ok THEN Fail
  ELSE LET q == SkipWs(T, r.p) a2 == Append(acc, r.v) IN
       IF q > Len(T) THEN Fail
       ELSE IF T[q] = 93 THEN Got([t |-> "a", a |-> a2], q + 1)
       ELSE IF T[q] = 44 THEN PArr(T, q + 1, a2) ELSE Fail
PObj(T, p0, acc) ==
  LET p == SkipWs(T, p0) IN
  IF p > Len(T) \/ T[p] # 34 THEN Fail
  ELSE LET k == PStr(T, p + 1, <<>>) IN
    IF ~k.ok THEN Fail
    ELSE LET c == SkipWs(T, k.p) IN
      IF c > Len(T) \/ T[c] # 58 THEN Fail
      ELSE LET r == PVal(T, c + 1) IN
        IF ~r.ok THEN Fail
        ELSE LET q == SkipWs(T, r.p) a2 == Append(acc, [k |-> k.v, v |-> r.v]) IN
             IF q > Len(T) THEN Fail
             ELSE IF T[q] = 125 THEN Got([t |-> "o", o |-> a2], q + 1)
             ELSE IF T[q] = 44 THEN PObj(T, q + 1, a2) ELSE Fail

\* the value a whole text denotes
Parse(T) == LET r == PVal(T, 1) IN
  IF r.ok /\ SkipWs(T, r.p) = Len(T) + 1 THEN r ELSE Fail

\* Same value: objects are unordered, keys must be distinct
RECURSIVE Same(_, _)
Same(x, y) ==
  /\ x.t = y.t
  /\ CASE x.t = "z" -> TRUE
       [] x.t = "b" -> x.b = y.b
       [] x.t = "n" -> x.n = y.n
       [] x.t = "s" -> x.s = y.s
       [] x.t = "a" -> Len(x.a) = Len(y.a) /\ \A i \in 1..Len(x.a) : Same(x.a[i], y.a[i])
       [] x.t = "o" ->
            /\ Len(x.o) = Len(y.o)
            /\ \A i \in 1..Len(x.o) : \E j \in 1..Len(y.o) :
                 x.o[i].k = y.o[j].k /\ Same(x.o[i].v, y.o[j].v)
            /\ \A i, j \in 1..Len(y.o) : y.o[i].k = y.o[j].k => i = j

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
RECURSIVE KeysSorted(_)
KeysSorted(x) ==
  CASE x.t = "a" -> \A i \in 1..Len(x.a) : KeysSorted(x.a[i])
    [] x.t = "o" -> /\ \A i \in 1..Len(x.o) : KeysSorted(x.o[i].v)
                    /\ \A i \in 1..(Len(x.o) - 1) : LexLess(x.o[i].k, x.o[i + 1].k)
    [] OTHER -> TRUE

\* sequence of the element depths of x in document order (a container at depth d
\* has its elements at depth d)
RECURSIVE Depths(_, _), Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Depths(x, d) ==
  CASE x.t = "a" -> Concat([i \in 1..Len(x.a) |-> <<d>> \o Depths(x.a[i], d + 1)])
    [] x.t = "o" -> Concat([i \in 1..Len(x.o) |-> <<d>> \o Depths(x.o[i].v, d + 1)])
    [] OTHER -> <<>>
RECURSIVE CountSpaces(_, _)
CountSpaces(T, p) == IF p <= Len(T) /\ T[p] = 32 THEN 1 + CountSpaces(T, p + 1) ELSE 0
\* leading spaces of every line after the first (newlines only occur between tokens)
LineIndents(T) ==
  LET at == SelectSeq([p \in 1..Len(T) |-> p], LAMBDA p : T[p] = 10) IN
  [i \in 1..Len(at) |-> CountSpaces(T, at[i] + 1)]

\* Acceptable renderings of value v under options o
RenderOk(v, o, T) ==
  LET r == Parse(T) IN
  /\ r.ok
  /\ Same(v, r.v)
  /\ o.stable => KeysSorted(r.v)
  /\ o.width >= 100000 => LineIndents(T) = <<>>
  /\ o.width = 0 => LineIndents(T) = [i \in 1..Len(Depths(r.v, 0)) |-> o.start + o.indent * Depths(r.v, 0)[i]]

RECURSIVE Filter(_, _)
Filter(x, names) ==
  CASE x.t = "a" -> [t |-> "a", a |-> [i \in 1..Len(x.a) |-> Filter(x.a[i], names)]]
    [] x.t = "o" ->
         LET keep == SelectSeq(x.o, LAMBDA f : f.k \notin names) IN
         [t |-> "o", o |-> [i \in 1..Len(keep) |-> [k |-> keep[i].k, v |-> Filter(keep[i].v, names)]]]
    [] OTHER -> x

RECURSIVE Keys(_)
Keys(x) == CASE x.t = "a" -> UNION {Keys(x.a[i]) : i \in 1..Len(x.a)}
             [] x.t = "o" -> {x.o[i].k : i \in 1..Len(x.o)} \cup UNION {Keys(x.o[i].v) : i \in 1..Len(x.o)}
             [] OTHER -> {}

----------------------------------------------------------------------------
\* Transcription of the renderer: one line if the indented form fits, else one
\* element per line.
Sp(n) == [i \in 1..(IF n < 0 THEN 0 ELSE n) |-> 32]
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
EscByte(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>>
                [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
                [] c = 9 -> <<92, 116>>
                [] c < 32 \/ c = 127 -> IF c = 127 THEN <<127>> ELSE <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
                [] OTHER -> <<c>>
StrText(s) == <<34>> \o Concat([i \in 1..Len(s) |-> EscByte(s[i])]) \o <<34>>
RECURSIVE JoinSeq(_, _)
JoinSeq(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
                    ELSE ss[1] \o sep \o JoinSeq(Tail(ss), sep)
RECURSIVE Dump(_)
Dump(x) ==
  CASE x.t = "z" -> <<110, 117, 108, 108>>
    [] x.t = "b" -> IF x.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
    [] x.t = "n" -> x.n
    [] x.t = "s" -> StrText(x.s)
    [] x.t = "a" -> <<91>> \o JoinSeq([i \in 1..Len(x.a) |-> Dump(x.a[i])], <<44>>) \o <<93>>
    [] x.t = "o" -> <<123>> \o JoinSeq([i \in 1..Len(x.o) |-> StrText(x.o[i].k) \o <<58>> \o Dump(x.o[i].v)], <<44>>) \o <<125>>
RECURSIVE PrettySize(_, _)
SumSeq(q) == LET F[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE F[i - 1] + q[i] IN F[Len(q)]
PrettySize(x, d) ==
  CASE x.t = "a" -> IF x.a = <<>> THEN 2 ELSE
         4 + 2 * d + SumSeq([i \in 1..Len(x.a) |-> 2 * d + 2 + 2 + PrettySize(x.a[i], d + 1)]) - 2
    [] x.t = "o" -> IF x.o = <<>> THEN 2 ELSE
         4 + 2 * d + SumSeq([i \in 1..Len(x.o) |-> 2 * d + 2 + 2 + Len(StrText(x.o[i].k)) + 2 + PrettySize(x.o[i].v, d + 1)]) - 2
    [] OTHER -> Len(Dump(x))
RECURSIVE Render(_, _, _)
Render(x, o, ind) ==
  IF PrettySize(x, 0) < o.width - ind THEN Dump(x)
  ELSE CASE x.t = "a" -> <<91>> \o JoinSeq([i \in 1..Len(x.a) |-> <<10>> \o Sp(ind) \o Render(x.a[i], o, ind + o.indent)], <<44>>) \o <<93>>
         [] x.t = "o" -> <<123>> \o JoinSeq([i \in 1..Len(x.o) |->
                <<10>> \o Sp(ind) \o StrText(x.o[i].k) \o <<58, 32>> \o Render(x.o[i].v, o, ind + o.indent)], <<44>>) \o <<125>>
         [] OTHER -> Dump(x)

=============================================================================
