-------------------------------- MODULE SeqDiff --------------------------------
\* Comparing two sequences: edit scripts, common subsequences, the aligned
\* two-sided view and its printed forms, and the placement of a pattern in a
\* text.  Property C07.
EXTENDS StrOps
\* kinds of a step: 0 none, 1 keep, 2 insert, 3 replace, 4 delete; positions start at 0
\* two elements are equal when they agree modulo g
Same(a, b, g, i, j) == a[i + 1] % g = b[j + 1] % g
\* ---- optimal values, one row at a time
RECURSIVE LcsRow(_, _, _, _, _, _)
LcsRow(a, b, g, i, prev, cur) ==
  IF Len(cur) > Len(b) THEN cur
  ELSE LET j == Len(cur) IN
       LcsRow(a, b, g, i, prev, Append(cur, IF a[i] % g = b[j] % g THEN prev[j] + 1 ELSE Max2(prev[j + 1], cur[j])))
RECURSIVE LcsRows(_, _, _, _, _)
LcsRows(a, b, g, i, prev) == IF i > Len(a) THEN prev[Len(b) + 1] ELSE LcsRows(a, b, g, i + 1, LcsRow(a, b, g, i, prev, <<0>>))
LcsLen(a, b, g) == LcsRows(a, b, g, 1, [j \in 1..(Len(b) + 1) |-> 0])
RECURSIVE LevRow(_, _, _, _, _, _)
LevRow(a, b, g, i, prev, cur) ==
  IF Len(cur) > Len(b) THEN cur
  ELSE LET j == Len(cur) IN
       LevRow(a, b, g, i, prev, Append(cur, IF a[i] % g = b[j] % g THEN prev[j] ELSE 1 + Min2(prev[j], Min2(prev[j + 1], cur[j]))))
RECURSIVE LevRows(_, _, _, _, _)
LevRows(a, b, g, i, prev) == IF i > Len(a) THEN prev[Len(b) + 1] ELSE LevRows(a, b, g, i + 1, LevRow(a, b, g, i, prev, <<i>>))
LevLen(a, b, g) == LevRows(a, b, g, 1, [j \in 1..(Len(b) + 1) |-> j - 1])

\* ---- a common subsequence: two lists of positions
Rising(q, n) == \A k \in 1..Len(q) : q[k] \in 0..(n - 1) /\ (k > 1 => q[k - 1] < q[k])
Common(a, b, g, l, r) == Len(l) = Len(r) /\ Rising(l, Len(a)) /\ Rising(r, Len(b)) /\ \A k \in 1..Len(l) : Same(a, b, g, l[k], r[k])
Longest(a, b, g, l, r) == Common(a, b, g, l, r) /\ Len(l) = LcsLen(a, b, g)

\* ---- an edit script: steps <<kind, source position, target position>>
\* running it from position i of the source and j of the target
RECURSIVE Runs(_, _, _, _, _, _)
Runs(a, b, g, q, i, j) ==
  IF q = <<>> THEN i = Len(a) /\ j = Len(b)
  ELSE LET e == Head(q) IN
    CASE e[1] = 1 -> i < Len(a) /\ j < Len(b) /\ e[2] = i /\ e[3] = j /\ Same(a, b, g, i, j) /\ Runs(a, b, g, Tail(q), i + 1, j + 1)
      [] e[1] = 2 -> j < Len(b) /\ e[3] = j /\ Runs(a, b, g, Tail(q), i, j + 1)
      [] e[1] = 3 -> i < Len(a) /\ j < Len(b) /\ e[2] = i /\ e[3] = j /\ Runs(a, b, g, Tail(q), i + 1, j + 1)
      [] e[1] = 4 -> i < Len(a) /\ e[2] = i /\ Runs(a, b, g, Tail(q), i + 1, j)
      [] OTHER -> FALSE
Cost(q) == Len(SelectSeq(q, LAMBDA e : e[1] # 1))
NoReplace(q) == \A k \in 1..Len(q) : q[k][1] # 3
Shortest(a, b, g, q) == Runs(a, b, g, q, 0, 0) /\ NoReplace(q) /\ Cost(q) = Len(a) + Len(b) - 2 * LcsLen(a, b, g)

\* ---- the aligned view of a script: two columns of <<kind, position>>
None == <<0, 0>>
Pad(q, n) == q \o [k \in 1..Max2(0, n - Len(q)) |-> None]
RECURSIVE Align(_, _, _)
Align(q, o, n) ==
  IF q = <<>> THEN <<o, n>>
  ELSE LET e == Head(q) m == Max2(Len(o), Len(n)) IN
    CASE e[1] = 4 -> Align(Tail(q), Append(o, <<4, e[2]>>), n)
      [] e[1] = 2 -> Align(Tail(q), o, Append(n, <<2, e[3]>>))
      [] OTHER -> Align(Tail(q), Append(Pad(o, m), <<e[1], e[2]>>), Append(Pad(n, m), <<e[1], e[3]>>))
View(q) == Align(q, <<>>, <<>>)
\* the view of a common subsequence: deletions and insertions never share a row
Gap(k, from, to) == [x \in 1..Max2(0, to - from) |-> <<k, from + x - 1>>]
RECURSIVE Around(_, _, _, _, _, _, _)
Around(l, r, n, m, k, o, w) ==
  LET pl == IF k = 1 THEN 0 ELSE l[k - 1] + 1
      pr == IF k = 1 THEN 0 ELSE r[k - 1] + 1
      D(t) == Gap(4, pl, t) I(t) == Gap(2, pr, t)
  IN IF k > Len(l) THEN <<o \o D(n) \o [x \in 1..Len(I(m)) |-> None], w \o [x \in 1..Len(D(n)) |-> None] \o I(m)>>
     ELSE Around(l, r, n, m, k + 1, o \o D(l[k]) \o [x \in 1..Len(I(r[k])) |-> None] \o <<<<1, l[k]>>>>,
                                    w \o [x \in 1..Len(D(l[k])) |-> None] \o I(r[k]) \o <<<<1, r[k]>>>>)
ViewOf(l, r, n, m) == Around(l, r, n, m, 1, <<>>, <<>>)
\* what any view has to satisfy
Order(col, n) == LET q == SelectSeq(col, LAMBDA x : x[1] # 0) IN Len(q) = n /\ \A k \in 1..n : q[k][2] = k - 1
Faithful(a, b, g, v) == LET n == Max2(Len(v[1]), Len(v[2])) o == Pad(v[1], n) w == Pad(v[2], n) IN
  /\ Order(o, Len(a)) /\ Order(w, Len(b))
  /\ \A k \in 1..n : o[k] # None \/ w[k] # None
  /\ \A k \in 1..n : (o[k][1] = 1) = (w[k][1] = 1) /\ (o[k][1] = 1 => Same(a, b, g, o[k][2], w[k][2]))

\* ---- printed forms; a and b are sequences of texts
RECURSIVE Limit(_, _, _, _)
Limit(rows, max, un, out) ==
  IF rows = <<>> THEN out
  ELSE LET x == Head(rows) IN
    IF x[1][1] = 1 /\ x[2][1] = 1 THEN (IF un < max THEN Limit(Tail(rows), max, un + 1, Append(out, x)) ELSE Limit(Tail(rows), max, un, out))
    ELSE Limit(Tail(rows), max, 0, Append(out, x))
Rows(v) == LET n == Max2(Len(v[1]), Len(v[2])) IN [k \in 1..n |-> <<Pad(v[1], n)[k], Pad(v[2], n)[k]>>]
IsKeep(x) == x[1][1] = 1 /\ x[2][1] = 1
Lead(rows) == LET c == {k \in 1..Len(rows) : ~IsKeep(rows[k])} IN
  IF c = {} THEN Len(rows) ELSE Max2(1, (CHOOSE k \in c : \A x \in c : k <= x) - 1)
Trail(rows, first) == LET c == {k \in (first + 1)..Len(rows) : ~IsKeep(rows[k])} IN
  IF c = {} THEN Min2(Len(rows), first + 1) ELSE Min2(Len(rows), (CHOOSE k \in c : \A x \in c : x <= k) + 1)
Cut(t, n) == IF n < 0 THEN t ELSE Cat(SubSeq(Runes(t, 1), 1, Min2(n, RuneLen(t))))
Word(s, x) == IF x[1] = 0 THEN <<>> ELSE s[x[2] + 1]
Sign(k) == CASE k = 0 -> <<63>> [] k = 1 -> <<126>> [] k = 2 -> <<43>> [] k = 3 -> <<45, 43>> [] k = 4 -> <<45>>
RECURSIVE Widest(_, _)
Widest(S, m) == IF S = {} THEN m ELSE LET x == CHOOSE x \in S : TRUE IN Widest(S \ {x}, Max2(m, x))
Sp(t, n) == Left(t, n, 32)
DiffTable(a, b, q, c) ==
  LET rows == Limit(Rows(View(q)), c.maxu, 0, <<>>)
      L == [k \in 1..Len(rows) |-> Cut(Word(a, rows[k][1]), c.maxl)]
      R == [k \in 1..Len(rows) |-> Cut(Word(b, rows[k][2]), c.maxr)]
      lw == Widest({RuneLen(L[k]) : k \in 1..Len(rows)}, Max2(0, c.minl))
      rw == Widest({RuneLen(R[k]) : k \in 1..Len(rows)}, Max2(0, c.minr))
      head == <<32, 32>> \o Sp(<<71, 105, 118, 101, 110>>, lw) \o <<32, 32, 32, 69, 120, 112, 101, 99, 116, 101, 100, 10>>
      first == IF c.dl THEN Lead(rows) ELSE 1
      last == IF c.dt THEN Trail(rows, first) ELSE Len(rows)
  IN IF rows = <<>> THEN head \o <<78, 111, 32, 100, 105, 102, 102, 32, 99, 111, 110, 116, 101, 110, 116, 32, 116, 111, 32, 99, 111, 109, 112, 97, 114, 101, 10>>
     ELSE head \o Cat([x \in 1..(last - first + 1) |-> LET k == first + x - 1 IN
            Sp(Sign(rows[k][1][1]), 2) \o Sp(L[k], lw) \o <<32>> \o Sp(Sign(rows[k][2][1]), 2) \o Sp(R[k], rw) \o <<10>>])
\* one column: a run of rows of one shape prints its left side, then its additions
RECURSIVE RunLen(_, _)
RunLen(rows, k) == IF k < Len(rows) /\ rows[k + 1][1][1] = rows[1][1][1] /\ rows[k + 1][2][1] = rows[1][2][1] THEN RunLen(rows, k + 1) ELSE k
RECURSIVE Stack(_)
Stack(rows) ==
  IF rows = <<>> THEN <<>>
  ELSE LET n == RunLen(rows, 1) IN
    (IF rows[1][1][1] = 0 THEN <<>> ELSE [k \in 1..n |-> <<rows[k][1][1], 1, rows[k][1][2]>>])
    \o (IF rows[1][2][1] = 2 THEN [k \in 1..n |-> <<2, 0, rows[k][2][2]>>] ELSE <<>>)
    \o Stack(SubSeq(rows, n + 1, Len(rows)))
\* pieces of both sides on one line each
RECURSIVE Side(_, _, _, _, _, _)
Side(s, q, left, max, un, out) ==
  IF q = <<>> THEN out
  ELSE LET e == Head(q) w == IF left THEN s[e[2] + 1] ELSE s[e[3] + 1] IN
    CASE e[1] = 1 -> (IF un < max THEN Side(s, Tail(q), left, max, un + 1, Append(out, w)) ELSE Side(s, Tail(q), left, max, un, out))
      [] e[1] = 4 -> Side(s, Tail(q), left, max, 0, IF left THEN Append(out, w) ELSE out)
      [] e[1] = 2 -> Side(s, Tail(q), left, max, 0, IF left THEN out ELSE Append(out, w))
      [] OTHER -> Side(s, Tail(q), left, max, 0, Append(out, w))
Pair(a, b, q, sep, max) == <<Join(sep, Side(a, q, TRUE, max, 0, <<>>)), Join(sep, Side(b, q, FALSE, max, 0, <<>>))>>
\* control characters anywhere or a space at the end
Hidden(t) == (\E k \in 1..Len(t) : t[k] < 32 \/ t[k] = 127) \/ (t # <<>> /\ t[Len(t)] = 32)
Mark(t) == Cat([k \in 1..Len(t) |-> <<60, t[k], 62>>])
Explain(q) == [k \in 1..Len(q) |-> Mark(q[k])]

\* ---- placing a pattern in a text so that the placement scores best
Placed(p, t, m) == Len(m) = Len(p) /\ Rising(m, Len(t)) /\ \A k \in 1..Len(p) : t[m[k] + 1] = p[k]
Placements(p, t) == {m \in [1..Len(p) -> 0..(Len(t) - 1)] : Placed(p, t, m)}
RECURSIVE Bonus(_, _, _)
Bonus(m, k, c) ==
  IF k > Len(m) THEN 0
  ELSE (IF k > 1 /\ m[k] = m[k - 1] + 1 THEN c.seq ELSE 0)
     + (IF m[k] = 0 THEN c.first ELSE IF m[k] \in Rng(c.seps) THEN c.sep ELSE 0) + Bonus(m, k + 1, c)
Score(m, n, c) == c.start + Max2(c.lead * m[1], c.leadmax) + c.un * (n - Len(m)) + Bonus(m, 1, c)
RECURSIVE Leftmost(_, _, _, _)
Leftmost(p, t, k, out) == IF Len(out) = Len(p) \/ k > Len(t) THEN out
  ELSE Leftmost(p, t, k + 1, IF t[k] = p[Len(out) + 1] THEN Append(out, k - 1) ELSE out)
Fuzzy(p, t, c, r) ==
  IF Len(p) = 0 \/ Len(t) = 0 THEN ~r.ok
  ELSE LET g == Leftmost(p, t, 1, <<>>) IN
    IF Len(g) < Len(p) THEN ~r.ok
    ELSE /\ r.ok /\ Placed(p, t, r.m) /\ r.score = Score(r.m, Len(t), c)
         /\ r.score >= Score(g, Len(t), c)
         /\ (c.all => \A m \in Placements(p, t) : Score(m, Len(t), c) <= r.score)

\* ---- the judgement of one recorded call: "" or what is wrong
Judge(e) ==
  LET r == e.r.v IN
  CASE e.op = "cmp" ->
         IF ~Longest(e.a, e.b, e.g, r.lcs.l, r.lcs.r) THEN "common subsequence"
         ELSE IF ~Shortest(e.a, e.b, e.g, r.my) THEN "edit script"
         ELSE IF ~(Runs(e.a, e.b, e.g, r.lev.q, 0, 0) /\ r.lev.n = LevLen(e.a, e.b, e.g) /\ Cost(r.lev.q) = r.lev.n) THEN "weighted edit script"
         ELSE IF r.sl # ViewOf(r.lcs.l, r.lcs.r, Len(e.a), Len(e.b)) THEN "view of the common subsequence"
         ELSE IF r.sm # View(r.my) THEN "view of the edit script"
         ELSE IF r.sv # View(r.lev.q) THEN "view of the weighted edit script"
         ELSE IF \E v \in {r.sl, r.sm} : ~Faithful(e.a, e.b, e.g, v) THEN "unfaithful view"
         ELSE IF r.zip # [k \in 1..Max2(Len(e.a), Len(e.b)) |-> <<IF k <= Len(e.a) THEN e.a[k] ELSE -1, IF k <= Len(e.b) THEN e.b[k] ELSE -1>>] THEN "zip"
         ELSE ""
    [] e.op = "table" -> IF r.text # DiffTable(e.a, e.b, r.q, e) THEN "table" ELSE IF r.stack # Stack(Limit(Rows(View(r.q)), e.maxu, 0, <<>>)) THEN "stack" ELSE ""
    [] e.op = "pair" -> IF r.text # Pair(e.a, e.b, r.q, e.sep, e.maxu) THEN "pair" ELSE ""
    [] e.op = "line" -> LET A == Keep(e.a, {32, 10}) B == Keep(e.b, {32, 10}) IN
         IF r.text # (IF e.vis /\ (Hidden(e.a) \/ Hidden(e.b)) THEN Pair(Explain(A), Explain(B), r.q, e.sep, 1000) ELSE Pair(A, B, r.q, e.sep, 1000)) THEN "line" ELSE ""
    [] e.op = "fuzzy" -> IF ~Fuzzy(e.a, e.b, e, r) THEN "placement" ELSE ""
===============================================================================
