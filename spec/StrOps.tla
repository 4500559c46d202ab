-------------------------------- MODULE StrOps --------------------------------
\* Text helpers.  A text is a sequence of byte values.  Splitting, replacing,
\* stripping, decoding and wrapping are given as scanners that consume the text
\* from the left, one step at a time.  Property C06.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Rng(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
RECURSIVE Join(_, _)
Join(sep, q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(sep, Tail(q))
From(s, k) == SubSeq(s, k, Len(s))
Starts(s, k, p) == k + Len(p) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(p) - 1) = p
Rep(s, n) == Cat([k \in 1..(IF n < 0 THEN 0 ELSE n) |-> s])
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

\* ---- scanners: k = next position, cur = piece being read, out = result
RECURSIVE ScanSplit(_, _, _, _, _)
ScanSplit(s, d, k, cur, out) ==
  IF k > Len(s) THEN Append(out, cur)
  ELSE IF Starts(s, k, d) THEN ScanSplit(s, d, k + Len(d), <<>>, Append(out, cur))
  ELSE ScanSplit(s, d, k + 1, Append(cur, s[k]), out)
SplitBy(s, d) == IF d = <<>> THEN <<s>> ELSE ScanSplit(s, d, 1, <<>>, <<>>)
\* by one character: every separator ends a piece; nothing is left after the last one
Lines(s, c) == LET q == SplitBy(s, <<c>>) IN IF q[Len(q)] = <<>> THEN SubSeq(q, 1, Len(q) - 1) ELSE q

RECURSIVE ScanReplace(_, _, _, _, _)
ScanReplace(s, f, t, k, out) ==
  IF k > Len(s) THEN out
  ELSE IF Starts(s, k, f) THEN ScanReplace(s, f, t, k + Len(f), out \o t)
  ELSE ScanReplace(s, f, t, k + 1, Append(out, s[k]))
Replace(s, f, t) == IF f = <<>> THEN s ELSE ScanReplace(s, f, t, 1, <<>>)

\* runs of one separator are pieces of their own
RECURSIVE ScanKeep(_, _, _, _, _)
ScanKeep(s, S, k, cur, out) ==
  LET flush == IF cur = <<>> THEN out ELSE Append(out, cur) IN
  IF k > Len(s) THEN flush
  ELSE IF s[k] \in S THEN (IF cur # <<>> /\ cur[Len(cur)] = s[k] THEN ScanKeep(s, S, k + 1, Append(cur, s[k]), out) ELSE ScanKeep(s, S, k + 1, <<s[k]>>, flush))
  ELSE IF cur # <<>> /\ cur[1] \in S THEN ScanKeep(s, S, k + 1, <<s[k]>>, flush)
  ELSE ScanKeep(s, S, k + 1, Append(cur, s[k]), out)
Keep(s, S) == ScanKeep(s, S, 1, <<>>, <<>>)

RECURSIVE LStrip(_, _)
LStrip(s, S) == IF s # <<>> /\ s[1] \in S THEN LStrip(Tail(s), S) ELSE s
RECURSIVE RStrip(_, _)
RStrip(s, S) == IF s # <<>> /\ s[Len(s)] \in S THEN RStrip(SubSeq(s, 1, Len(s) - 1), S) ELSE s
Strip(s, L, T) == RStrip(LStrip(s, L), T)

\* ---- characters
Lower(c) == IF 65 <= c /\ c <= 90 THEN c + 32 ELSE c
ILower(s) == [k \in 1..Len(s) |-> Lower(s[k])]
Normal(s) == ILower(SelectSeq(s, LAMBDA c : (48 <= c /\ c <= 57) \/ (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)))
RuneSize(b) == IF b <= 127 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4
               ELSE IF b \in 248..251 THEN 5 ELSE IF b \in 252..253 THEN 6 ELSE 1
RECURSIVE Runes(_, _)
Runes(s, k) == IF k > Len(s) THEN <<>> ELSE <<SubSeq(s, k, Min2(Len(s), k + RuneSize(s[k]) - 1))>> \o Runes(s, k + RuneSize(s[k]))
RuneLen(s) == Len(Runes(s, 1))
Left(s, n, c) == s \o Rep(<<c>>, n - RuneLen(s))
Right(s, n, c) == Rep(<<c>>, n - RuneLen(s)) \o s

\* UTF-8 acceptor: st = [need: continuation bytes left, lo, hi: range of the next one]
Utf0 == [need |-> 0, lo |-> 128, hi |-> 191, ok |-> TRUE]
UtfStep(st, b) ==
  IF ~st.ok THEN st
  ELSE IF st.need > 0 THEN IF st.lo <= b /\ b <= st.hi THEN [need |-> st.need - 1, lo |-> 128, hi |-> 191, ok |-> TRUE] ELSE [st EXCEPT !.ok = FALSE]
  ELSE CASE b <= 127 -> st
         [] b \in 194..223 -> [st EXCEPT !.need = 1]
         [] b = 224 -> [st EXCEPT !.need = 2, !.lo = 160]
         [] b = 237 -> [st EXCEPT !.need = 2, !.hi = 159]
         [] b \in 225..239 /\ b # 237 -> [st EXCEPT !.need = 2]
         [] b = 240 -> [st EXCEPT !.need = 3, !.lo = 144]
         [] b = 244 -> [st EXCEPT !.need = 3, !.hi = 143]
         [] b \in 241..243 -> [st EXCEPT !.need = 3]
         [] OTHER -> [st EXCEPT !.ok = FALSE]
RECURSIVE UtfRun(_, _, _)
UtfRun(st, s, k) == IF k > Len(s) THEN st.ok /\ st.need = 0 ELSE UtfRun(UtfStep(st, s[k]), s, k + 1)
Utf8(s) == UtfRun(Utf0, s, 1)

EscW(s, quote) == LET E(c) == CASE c = 9 -> <<92, 116>> [] c = 10 -> <<92, 110>> [] c = 34 /\ quote -> <<92, 34>> [] OTHER -> <<c>>
                      q == IF quote THEN <<34>> ELSE <<>>
                  IN q \o Cat([k \in 1..Len(s) |-> E(s[k])]) \o q
EscL(s) == <<194, 171>> \o Cat([k \in 1..Len(s) |-> IF s[k] = 10 THEN <<226, 144, 164>> ELSE <<s[k]>>]) \o <<194, 187>>
VisU(c) == CASE c = 10 -> <<226, 144, 164>> [] c < 32 /\ c # 10 -> <<226, 144, 128 + c>> [] c = 127 -> <<226, 144, 161>> [] c = 32 -> <<226, 144, 163>> [] OTHER -> <<c>>

\* ---- greedy filling: line = words of the open line
Width(line) == LET S == [k \in 1..Len(line) |-> Len(line[k])] IN Len(Join(<<32>>, line))
Just(line, w) ==
  IF Len(line) < 2 THEN Join(<<32>>, line)
  ELSE LET sum == Len(Cat(line)) n == Len(line) - 1 gap == w - sum
           pad(k) == (gap \div n) + (IF k <= gap % n THEN 1 ELSE 0)
       IN Cat([k \in 1..Len(line) |-> IF k = Len(line) THEN line[k] ELSE line[k] \o Rep(<<32>>, pad(k))])
RECURSIVE Fill(_, _, _, _)
Fill(words, w, line, out) ==
  IF words = <<>> THEN IF line = <<>> THEN out ELSE Append(out, line)
  ELSE IF line # <<>> /\ Width(Append(line, words[1])) > w THEN Fill(Tail(words), w, <<words[1]>>, Append(out, line))
  ELSE Fill(Tail(words), w, Append(line, words[1]), out)
Wrap(words, w, j) == LET q == Fill(words, w, <<>>, <<>>) IN Join(<<10>>, [k \in 1..Len(q) |-> IF j THEN Just(q[k], w) ELSE Join(<<32>>, q[k])])

\* ---- tables: every cell is padded to the width of its column
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Table(rows, cs, rs, u) ==
  LET nc == MaxOf({0} \cup {Len(rows[k]) : k \in 1..Len(rows)})
      cell(r, c) == IF c <= Len(rows[r]) THEN Lines(rows[r][c], 10) ELSE <<>>
      cw(c) == MaxOf({0} \cup UNION {{Len(x) : x \in Rng(cell(r, c))} : r \in 1..Len(rows)})
      rh(r) == MaxOf({1} \cup {Len(cell(r, c)) : c \in 1..nc})
      ln(r, l) == Join(cs, [c \in 1..nc |-> LET x == IF l <= Len(cell(r, c)) THEN cell(r, c)[l] ELSE <<>> IN x \o Rep(<<32>>, cw(c) - Len(x))]) \o <<10>>
      under == Join(rs, [c \in 1..nc |-> Rep(<<u>>, cw(c))]) \o <<10>>
      row(r) == Cat([l \in 1..rh(r) |-> ln(r, l)]) \o (IF r < Len(rows) /\ rs # <<>> THEN under ELSE <<>>)
  IN IF nc = 0 THEN <<>> ELSE Cat([r \in 1..Len(rows) |-> row(r)])

\* ---- digits
RECURSIVE Digits(_, _)
Digits(v, b) == LET d == v % b c == IF d < 10 THEN 48 + d ELSE 87 + d IN IF v < b THEN <<c>> ELSE Append(Digits(v \div b, b), c)
Pad0(q, n) == Rep(<<48>>, n - Len(q)) \o q
RECURSIVE Group(_)
Group(q) == IF Len(q) <= 4 THEN q ELSE Group(SubSeq(q, 1, Len(q) - 4)) \o <<39>> \o From(q, Len(q) - 3)
Bits(v, f, pad) == CASE f = "b" -> <<48, 98>> \o Group(Pad0(Digits(v, 2), pad))
                     [] f = "o" -> <<48, 111>> \o Group(Pad0(Digits(v, 8), pad))
                     [] f = "x" -> <<48, 120>> \o Group(Pad0(Digits(v, 16), pad))
                     [] OTHER -> Pad0(Digits(v, 10), pad)
\* integer prefix of a text: spaces, sign, digits
Blank == {32, 9, 10, 11, 12, 13}
RECURSIVE Num(_, _, _)
Num(s, k, v) == IF k <= Len(s) /\ s[k] \in 48..57 THEN Num(s, k + 1, v * 10 + s[k] - 48) ELSE v
ToInt(s) == LET q == LStrip(s, Blank) neg == q # <<>> /\ q[1] = 45 sg == q # <<>> /\ q[1] \in {43, 45} b == IF sg THEN Tail(q) ELSE q IN
            IF b = <<>> \/ b[1] \notin 48..57 THEN "err" ELSE IF neg THEN -Num(b, 1, 0) ELSE Num(b, 1, 0)

Slice(s, f, l) == IF 0 <= f /\ f < Len(s) /\ 0 <= l /\ l < Len(s) /\ f <= l + 1 THEN SubSeq(s, f + 1, l + 1) ELSE "err"
End(s, e) == IF e.b THEN Len(s) - e.v ELSE e.v

Do(o) ==
  CASE o.op = "split" -> Lines(o.s, o.c)
    [] o.op = "splits" -> SplitBy(o.s, o.d)
    [] o.op = "keep" -> Keep(o.s, Rng(o.l))
    [] o.op = "strip" -> Strip(o.s, Rng(o.l), Rng(o.t))
    [] o.op = "lstrip" -> LStrip(o.s, Rng(o.l))
    [] o.op = "rstrip" -> RStrip(o.s, Rng(o.l))
    [] o.op \in {"replace", "replacein"} -> Replace(o.s, o.f, o.t)
    [] o.op \in {"repeat", "repeated"} -> Rep(o.s, o.n)
    [] o.op = "indent" -> LET q == Lines(o.s, 10) IN Join(<<10>>, [k \in 1..Len(q) |-> o.t \o Rep(<<o.c>>, o.n) \o q[k]])
    [] o.op = "dropp" -> IF Starts(o.s, 1, o.f) THEN From(o.s, Len(o.f) + 1) ELSE o.s
    [] o.op = "drops" -> IF Len(o.f) <= Len(o.s) /\ From(o.s, Len(o.s) - Len(o.f) + 1) = o.f THEN SubSeq(o.s, 1, Len(o.s) - Len(o.f)) ELSE o.s
    [] o.op = "slice" -> Slice(o.s, End(o.s, o.a), End(o.s, o.z))
    [] o.op = "substr" -> IF o.a > Len(o.s) THEN "err" ELSE SubSeq(o.s, o.a + 1, IF o.n < 0 THEN Len(o.s) ELSE Min2(Len(o.s), o.a + o.n))
    [] o.op = "at" -> LET k == End(o.s, o.a) IN IF 0 <= k /\ k < Len(o.s) THEN o.s[k + 1] ELSE "err"
    [] o.op = "has" -> \E k \in 1..(Len(o.s) + 1) : Starts(o.s, k, o.f)
    [] o.op = "left" -> Left(o.s, o.n, o.c)
    [] o.op = "right" -> Right(o.s, o.n, o.c)
    [] o.op = "ieq" -> ILower(o.s) = ILower(o.f)
    [] o.op = "normal" -> Normal(o.s)
    [] o.op = "escw" -> EscW(o.s, o.q)
    [] o.op = "escl" -> EscL(o.s)
    [] o.op = "vis" -> [k \in 1..Len(o.s) |-> VisU(o.s[k])]
    [] o.op = "runelen" -> RuneLen(o.s)
    [] o.op = "runes" -> Runes(o.s, 1)
    [] o.op = "utf8" -> Utf8(o.s)
    [] o.op = "wrap" -> Wrap(o.l, o.n, o.q)
    [] o.op = "table" -> Table(o.l, o.f, o.t, o.c)
    [] o.op = "join" -> Join(o.s, o.l)
    [] o.op = "bits" -> Bits(o.n, o.f, o.c)
    [] o.op = "int" -> ToInt(o.s)
    [] o.op = "plus" -> o.s \o o.f
===============================================================================
