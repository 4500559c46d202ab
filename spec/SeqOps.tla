-------------------------------- MODULE SeqOps --------------------------------
\* Vectors, slices (inclusive), end-relative indices, spans and the sequence
\* algorithms.  A position is [b, v]: v from the front, or (b = TRUE) v back
\* from the end.  Property C01.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Pos(n, p) == IF p.b THEN n - p.v ELSE p.v
Has(q, k) == 0 <= k /\ k < Len(q)
Err == "err"
Ok(v) == v
Rng(n, a, z) == [f |-> Pos(n, a), l |-> Pos(n, z)]
RngOk(n, r) == 0 <= r.f /\ r.f < n /\ 0 <= r.l /\ r.l < n /\ r.f <= r.l + 1
Cut(q, r) == SubSeq(q, r.f + 1, r.l + 1)
IndexOf(q, x) == LET S == {k \in 1..Len(q) : q[k] = x} IN
                 IF S = {} THEN -1 ELSE (CHOOSE k \in S : \A j \in S : k <= j) - 1
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
Grow(q, k, x) == IF k < Len(q) THEN q ELSE q \o [j \in 1..(k + 1 - Len(q)) |-> x]
Put(q, k, x) == [q EXCEPT ![k + 1] = x]
Insert(q, k, x) == SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
CountIn(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
IsSortOf(r, q, K(_)) == /\ Len(r) = Len(q)
                        /\ \A k \in 1..(Len(r) - 1) : K(r[k]) <= K(r[k + 1])
                        /\ \A k \in 1..Len(q) : CountIn(r, q[k]) = CountIn(q, q[k])
RECURSIVE Cat(_)
Cat(l) == IF l = <<>> THEN <<>> ELSE l[1] \o Cat(Tail(l))
\* maximal runs of equal key
RECURSIVE Runs(_, _)
Runs(q, m) ==
  IF q = <<>> THEN <<>>
  ELSE LET S == {k \in 1..Len(q) : \A j \in 1..k : q[j] % m = q[1] % m}
           n == CHOOSE k \in S : \A j \in S : j <= k IN
       <<SubSeq(q, 1, n)>> \o Runs(SubSeq(q, n + 1, Len(q)), m)
Windows(q, n) == [k \in 1..(IF Len(q) < n THEN 0 ELSE Len(q) - n + 1) |-> SubSeq(q, k, k + n - 1)]
Pairs2(a, b) == [k \in 1..(Len(a) * Len(b)) |-> <<a[((k - 1) \div Len(b)) + 1], b[((k - 1) % Len(b)) + 1]>>]

\* ---- the vector state machine: st = [q, ret]
Start0 == [q |-> <<>>, ret |-> "ok"]
S(q, r) == [q |-> q, ret |-> r]
Get(q, p) == LET k == Pos(Len(q), p) IN IF Has(q, k) THEN q[k + 1] ELSE Err
Apply(st, o) ==
  LET q == st.q n == Len(st.q) IN
  CASE o.op = "push" -> S(Append(q, o.x), "ok")
    [] o.op = "pushidx" -> S(Append(q, o.x), n)
    [] o.op = "pop" -> IF n = 0 THEN S(q, Err) ELSE S(SubSeq(q, 1, n - 1), "ok")
    [] o.op = "popv" -> IF n = 0 THEN S(q, Err) ELSE S(SubSeq(q, 1, n - 1), q[n])
    [] o.op = "back" -> S(q, IF n = 0 THEN Err ELSE q[n])
    [] o.op \in {"at", "cat", "get", "cget", "copy"} -> S(q, Get(q, o.p))
    [] o.op = "index" -> S(q, IF o.p.b THEN Get(q, o.p) ELSE Get(q, o.p))
    [] o.op = "has" -> S(q, Has(q, Pos(n, o.p)))
    [] o.op = "ator" -> S(q, IF Has(q, Pos(n, o.p)) THEN Get(q, o.p) ELSE o.x)
    [] o.op = "set" -> LET k == Pos(n, o.p) IN IF Has(q, k) THEN S(Put(q, k, o.x), "ok") ELSE S(q, Err)
    [] o.op = "insert" -> S(Insert(q, o.k, o.x), "ok")
    [] o.op = "resizeat" -> S(Put(Grow(q, o.k, 0), o.k, o.x), "ok")
    [] o.op = "resizeatv" -> S(Grow(q, o.k, o.x), "ok")
    [] o.op = "append" -> S(q \o o.l, "ok")
    [] o.op = "appendspan" -> S(q \o o.l, "ok")
    [] o.op = "plus" -> S(q, q \o o.l)
    [] o.op = "plusone" -> S(q, Append(q, o.x))
    [] o.op = "slice" -> LET r == Rng(n, o.a, o.z) IN S(q, IF RngOk(n, r) THEN Cut(q, r) ELSE Err)
    [] o.op = "fill" -> LET r == Rng(n, o.a, o.z) IN
         IF RngOk(n, r) THEN S([k \in 1..n |-> IF r.f < k /\ k <= r.l + 1 THEN o.x ELSE q[k]], "ok") ELSE S(q, Err)
    [] o.op = "indexof" -> S(q, IndexOf(q, o.x))
    [] o.op = "contains" -> S(q, IndexOf(q, o.x) # -1)
    [] o.op = "less" -> S(q, [lt |-> Less(q, o.l), gt |-> Less(o.l, q), eq |-> q = o.l, hash |-> (q = o.l)])
    [] o.op = "high" -> S(q, n - 1)
    [] o.op = "splice" -> S(q, <<o.x>> \o q \o o.l \o <<o.x>>)
    [] o.op = "clear" -> S(<<>>, "ok")
    [] o.op = "reverse" -> S(Rev(q), "ok")
    [] o.op = "reversed" -> S(q, Rev(q))
    [] o.op = "map" -> S(q, [k \in 1..n |-> 2 * q[k] + 1])
    [] o.op = "partition" -> S(q, Runs(q, o.m))
    [] o.op = "cart" -> S(q, Pairs2(q, o.l))
    [] o.op = "windows" -> S(q, Windows(q, o.k))
    [] o.op = "enum" -> S(q, [k \in 1..n |-> <<k - 1, q[k]>>])
    [] o.op = "adapter" -> S(q \o o.l, q \o o.l)
\* sorting is specified by what the result must be, not computed
Sorted(st, o, r) ==
  CASE o.op = "sorted" -> IsSortOf(r, st.q, LAMBDA x : x)
    [] o.op = "sortedby" -> IsSortOf(r, st.q, LAMBDA x : 0 - x)
    [] o.op = "sortedcmp" -> IsSortOf(r, st.q, LAMBDA x : 0 - x)

\* ---- spans over a fixed sequence of n elements 0..n-1: [f, n] = first and size
SpanMove(tot, sp, o) ==
  LET clamp(k, f) == IF k < 0 THEN 0 ELSE IF k > tot - f THEN tot - f ELSE k IN
  IF o.w = "start"
  THEN IF o.k < sp.n THEN [f |-> sp.f + o.k, n |-> clamp(IF o.fix THEN sp.n ELSE sp.n - o.k, sp.f + o.k)]
       ELSE [f |-> 0, n |-> 0]
  ELSE IF o.fix THEN [f |-> sp.f + o.k, n |-> clamp(sp.n, sp.f + o.k)]
       ELSE [f |-> sp.f, n |-> clamp(sp.n + o.k, sp.f)]

\* ---- integer slices [f, l]
In(s, x) == s.f <= x /\ x <= s.l
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
SliceFacts(a, b, x) ==
  [contains |-> In(a, x), inner |-> In(a, b.f) /\ In(a, b.l), point |-> a.f = a.l,
   before |-> x < a.f, after |-> a.l < x,
   narrow |-> <<IF In(a, b.f) THEN b.f ELSE a.f, IF In(a, b.l) THEN b.l ELSE a.l>>,
   expand |-> <<Min(a.f, x), Max(a.l, x)>>, expanded |-> <<Min(a.f, b.f), Max(a.l, b.l)>>,
   overlap |-> IF Max(a.f, b.f) <= Min(a.l, b.l) THEN <<Max(a.f, b.f), Min(a.l, b.l)>> ELSE <<>>,
   items |-> [k \in 1..(a.l - a.f + 1) |-> a.f + k - 1]]
BackFacts(a, b) == [lt |-> a > b, le |-> a >= b, gt |-> a < b, ge |-> a <= b, eq |-> a = b, ne |-> a # b]
===============================================================================
