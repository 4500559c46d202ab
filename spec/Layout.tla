--------------------------------- MODULE Layout ---------------------------------
\* Text layout blocks.  A block stands for a set of renderings: texts, side by side,
\* stacked, one of several, wrapped.  The printed text is one of the renderings and none
\* of the others is cheaper.  Blocks are built on a stack; a block may be used
\* in several places and containers may grow after they were printed.  Property C09.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Start == [b |-> <<>>, q |-> <<>>, res |-> "ok"]
Blk(k) == [k |-> k, s |-> "", n |-> 0, e |-> <<>>, br |-> FALSE, m |-> 1, t |-> <<>>, z |-> 0, nl |-> FALSE]
None == [ls |-> <<>>, c |-> 0]
Range(q) == {q[j] : j \in 1..Len(q)}
\* ---- lines of items; an item is a fragment or a run of spaces
RECURSIVE Width(_)
Width(l) == IF l = <<>> THEN 0 ELSE Head(l).n + Width(Tail(l))
Sp(n) == [s |-> " ", n |-> n, sp |-> TRUE]
Fr(s, n) == [s |-> s, n |-> n, sp |-> FALSE]
Shift(ls, w) == [j \in 1..Len(ls) |-> IF w = 0 THEN ls[j] ELSE <<Sp(w)>> \o ls[j]]
One(i) == [ls |-> << <<i>> >>, c |-> 0]
\* B placed after the last line of A, its further lines hang below its first
Cat(A, B) ==
  IF A.ls = <<>> THEN [ls |-> B.ls, c |-> A.c + B.c]
  ELSE IF B.ls = <<>> THEN [ls |-> A.ls, c |-> A.c + B.c]
  ELSE LET last == A.ls[Len(A.ls)] IN
    [ls |-> SubSeq(A.ls, 1, Len(A.ls) - 1) \o <<last \o B.ls[1]>> \o Shift(SubSeq(B.ls, 2, Len(B.ls)), Width(last)), c |-> A.c + B.c]
Over(A, B) == [ls |-> A.ls \o B.ls, c |-> A.c + B.c]
Plus(A, c) == [A EXCEPT !.c = @ + c]
CatS(X, Y) == {Cat(x, y) : x \in X, y \in Y}
OverS(X, Y) == {Over(x, y) : x \in X, y \in Y}
RECURSIVE CutAfter(_, _)
\* split a sequence of block ids after every one that ends its line
CutAfter(b, e) ==
  IF e = <<>> THEN <<>>
  ELSE IF Len(e) = 1 THEN << <<e[1]>> >>
  ELSE LET t == CutAfter(b, Tail(e)) IN
    IF b[e[1]].br THEN << <<e[1]>> >> \o t ELSE << <<e[1]>> \o t[1] >> \o Tail(t)
RECURSIVE R(_, _, _, _)
RECURSIVE RLine(_, _, _, _)
RECURSIVE RStack(_, _, _, _)
RECURSIVE RStackLines(_, _, _, _)
RECURSIVE RWrap(_, _, _, _, _)
RECURSIVE WrapLine(_, _, _, _, _)
\* all renderings of block id followed by what is already laid out to its right
R(b, id, K, o) ==
  LET x == b[id] IN
  CASE x.k = "text" -> CatS({One(Fr(x.s, x.n))}, K)
    [] x.k = "space" -> CatS({One(Sp(x.n))}, K)
    [] x.k = "empty" -> K
    [] x.k = "line" ->
       LET p == CutAfter(b, x.e) IN
       IF Len(p) <= 1 THEN RLine(b, x.e, K, o)
       ELSE {LET two == r[1].ls # <<>> /\ r[2].ls # <<>> IN Plus(Over(r[1], r[2]), IF two THEN o.lb * 1000 ELSE 0) :
              r \in RLine(b, p[1], {None}, o)
                    \X {Plus(y, o.lb * 1000 * (Len(p) - 2)) : y \in CatS({One(Sp(4))}, RStackLines(b, Tail(p), K, o))}}
    [] x.k = "stack" -> IF x.e = <<>> THEN K ELSE {Plus(y, o.lb * 1000 * x.m * (Len(x.e) - 1)) : y \in RStack(b, x.e, K, o)}
    [] x.k = "choice" ->
       LET all == {y \in UNION {R(b, x.e[j], K, o) : j \in 1..Len(x.e)} : y.ls # <<>>} IN IF all = {} THEN {None} ELSE all
    [] x.k = "wrap" -> IF x.e = <<>> THEN K ELSE RWrap(b, x, 1, K, o)
    [] x.k = "verb" -> CatS({[ls |-> (IF x.nl THEN << <<>> >> ELSE <<>>) \o [j \in 1..Len(x.t) |-> <<Fr(x.t[j], Len(x.t[j]))>>], c |-> 0]}, K)
RLine(b, e, K, o) == IF e = <<>> THEN K ELSE R(b, e[1], RLine(b, Tail(e), K, o), o)
RStack(b, e, K, o) == IF Len(e) = 1 THEN R(b, e[1], K, o) ELSE OverS(R(b, e[1], {None}, o), RStack(b, Tail(e), K, o))
RStackLines(b, p, K, o) == IF Len(p) = 1 THEN RLine(b, p[1], K, o) ELSE OverS(RLine(b, p[1], {None}, o), RStackLines(b, Tail(p), K, o))
SepOf(x) == {[ls |-> << <<Fr(x.s, x.n), Sp(x.z)>> >>, c |-> 0]}
\* elements i..j of a wrap on one line
WrapLine(b, x, i, j, o) ==
  LET el == R(b, x.e[i], {None}, o) IN IF i = j THEN el ELSE CatS(el, CatS(SepOf(x), WrapLine(b, x, i + 1, j, o)))
RWrap(b, x, i, K, o) ==
  LET n == Len(x.e)
      must == {j \in i..(n - 1) : b[x.e[j]].br}
      end == IF must = {} THEN n ELSE CHOOSE j \in must : \A k \in must : j <= k
      brk == {j \in i..(n - 1) : j <= end}
  IN UNION {{Plus(y, o.lb * 1000 * x.m + (n - j + 1)) : y \in OverS(CatS(WrapLine(b, x, i, j, o), SepOf(x)), RWrap(b, x, j + 1, K, o))} : j \in brk}
     \cup (IF must = {} THEN CatS(WrapLine(b, x, i, n, o), K) ELSE {})
\* ---- cost of a rendering, in thousandths
Max(a, c) == IF a > c THEN a ELSE c
LineCost(l, o) == 50 * Max(0, Width(l) - o.left) + o.rmc * 1000 * Max(0, Width(l) - o.right)
RECURSIVE Lines(_, _)
Lines(ls, o) == IF ls = <<>> THEN 0 ELSE LineCost(Head(ls), o) + Lines(Tail(ls), o)
Cost(y, o) == y.c + Lines(y.ls, o)
\* ---- the text: spaces at the end of a line are not printed
RECURSIVE Trim(_)
Trim(l) == IF l = <<>> \/ ~(l[Len(l)].sp \/ l[Len(l)].n = 0) THEN l ELSE Trim(SubSeq(l, 1, Len(l) - 1))
RECURSIVE Rep(_)
Rep(n) == IF n = 0 THEN "" ELSE " " \o Rep(n - 1)
RECURSIVE StrOf(_)
StrOf(l) == IF l = <<>> THEN "" ELSE (IF Head(l).sp THEN Rep(Head(l).n) ELSE Head(l).s) \o StrOf(Tail(l))
Text(y) == LET q == [j \in 1..Len(y.ls) |-> StrOf(Trim(y.ls[j]))] IN IF q = <<>> THEN <<"">> ELSE q
RECURSIVE Below(_, _)
Below(b, id) == {id} \cup UNION {Below(b, b[id].e[j]) : j \in 1..Len(b[id].e)}
\* elements of a wrap are laid out before the line they end up on is known, so a wrap of
\* blocks that can themselves be laid out in several ways is not always the cheapest
Exact(b, id) == \A w \in Below(b, id) :
  /\ b[w].k # "verb"
  /\ b[w].k = "wrap" => \A x \in Below(b, w) \ {w} : b[x].k \notin {"wrap", "choice"}
RECURSIVE Leaves(_, _)
Leaves(b, id) == IF b[id].k \in {"line", "stack", "choice", "wrap"} THEN
    LET RECURSIVE Sum(_)
        Sum(q) == IF q = <<>> THEN 0 ELSE Leaves(b, Head(q)) + Sum(Tail(q))
    IN Sum(b[id].e)
  ELSE 1
\* ---- building
New(st, x) == [st EXCEPT !.b = Append(@, x), !.q = Append(@, Len(st.b) + 1), !.res = "ok"]
Top(st) == st.q[Len(st.q)]
Popn(st, n) == [st EXCEPT !.q = SubSeq(@, 1, Len(@) - n)]
Lastn(st, n) == SubSeq(st.q, Len(st.q) - n + 1, Len(st.q))
Err(st) == [st EXCEPT !.res = "err"]
Bare(st, id) == st.b[id].k \in {"line", "stack"} /\ st.b[id].e = <<>>
\* items with a separator after each but the last (or after the last too)
RECURSIVE Joined(_, _, _, _)
Joined(st, items, sep, trailing) ==
  IF items = <<>> THEN [st |-> st, e |-> <<>>]
  ELSE IF Len(items) = 1 /\ ~trailing THEN [st |-> st, e |-> items]
  ELSE LET s2 == [st EXCEPT !.b = Append(@, [Blk("line") EXCEPT !.e = <<items[1], sep>>])]
           rest == Joined(s2, Tail(items), sep, trailing)
       IN [st |-> rest.st, e |-> <<Len(s2.b)>> \o rest.e]
RECURSIVE Spaced(_, _)
Spaced(items, sep) == IF Len(items) <= 1 THEN items ELSE <<items[1], sep>> \o Spaced(Tail(items), sep)
Apply(st, o) ==
  CASE o.op = "text" -> New(st, [Blk("text") EXCEPT !.s = o.s, !.n = o.n])
    [] o.op = "space" -> New(st, [Blk("space") EXCEPT !.n = o.n])
    [] o.op = "empty" -> New(st, Blk("empty"))
    [] o.op = "verb" -> New(st, [Blk("verb") EXCEPT !.t = o.t, !.nl = o.nl])
    [] o.op = "dup" -> [st EXCEPT !.q = Append(@, Top(st)), !.res = "ok"]
    [] o.op \in {"line", "stack", "choice"} -> New(Popn(st, o.k), [Blk(o.op) EXCEPT !.e = Lastn(st, o.k)])
    [] o.op = "wrap" -> New(Popn(st, o.k), [Blk("wrap") EXCEPT !.e = Lastn(st, o.k), !.s = o.s, !.n = o.n, !.z = o.z, !.m = o.m])
    [] o.op = "mult" -> [st EXCEPT !.b[Top(st)].m = o.m, !.res = "ok"]
    [] o.op = "breaking" -> [st EXCEPT !.b[Top(st)].br = TRUE, !.res = "ok"]
    [] o.op = "indent" ->
       IF o.n = 0 THEN [st EXCEPT !.res = "ok"]
       ELSE LET s2 == [st EXCEPT !.b = Append(@, [Blk("space") EXCEPT !.n = o.n])] IN New(Popn(s2, 1), [Blk("line") EXCEPT !.e = <<Len(s2.b), Top(st)>>])
    [] o.op = "add" ->
       LET into == st.q[Len(st.q) - 1] IN
       IF Bare(st, Top(st)) \/ st.b[into].k \notin {"line", "stack", "choice", "wrap"} \/ into \in Below(st.b, Top(st)) THEN Err(st)
       ELSE [Popn(st, 1) EXCEPT !.b[into].e = Append(@, Top(st)), !.res = "ok"]
    [] o.op \in {"vertical", "horizontal", "join"} ->
       \* the separator is on top, the items below it
       LET sep == Top(st)  items == SubSeq(Lastn(st, o.k + 1), 1, o.k)
           bad == IF o.op = "horizontal" THEN (\E j \in 1..o.k : Bare(st, items[j])) \/ (o.k > 1 /\ Bare(st, sep))
                  ELSE o.k > 0 /\ ~(o.op = "join" /\ o.trail) /\ Bare(st, items[o.k])
           s1 == Popn(st, o.k + 1)
           J == Joined(s1, items, sep, o.op = "join" /\ o.trail)
       IN IF bad THEN Err(st)
          ELSE IF o.op = "horizontal" THEN New(s1, [Blk("line") EXCEPT !.e = Spaced(items, sep)])
          ELSE New(J.st, [Blk(IF o.op = "join" /\ o.hor THEN "line" ELSE "stack") EXCEPT !.e = J.e])
    [] o.op = "print" -> [st EXCEPT !.res = "ok"]
Fits(st, o) ==
  CASE o.op \in {"line", "stack", "choice", "wrap"} -> Len(st.q) >= o.k
    [] o.op \in {"dup", "indent", "breaking", "print"} -> Len(st.q) >= 1
    [] o.op = "mult" -> Len(st.q) >= 1 /\ st.b[Top(st)].k \in {"stack", "wrap"}
    [] o.op = "add" -> Len(st.q) >= 2
    [] o.op \in {"vertical", "horizontal", "join"} -> Len(st.q) >= o.k + 1
    [] OTHER -> TRUE
Renderings(st, o) == IF Leaves(st.b, Top(st)) = 0 THEN {None} ELSE R(st.b, Top(st), {None}, o)
Cheapest(S, o) == LET C == {Cost(y, o) : y \in S} IN CHOOSE c \in C : \A d \in C : c <= d
\* "" or what is wrong with a printed text
Judge(st, o, out) ==
  LET S == Renderings(st, o)
      mine == {y \in S : Text(y) = out}
  IN IF mine = {} THEN "not a rendering of the block"
     ELSE IF Exact(st.b, Top(st)) /\ Cheapest(mine, o) > Cheapest(S, o) + (Cheapest(S, o) \div 20000) THEN "a cheaper rendering exists"
     ELSE IF Exact(st.b, Top(st)) /\ (\E y \in S : \A j \in 1..Len(y.ls) : Width(y.ls[j]) <= o.right) /\ o.rmc * 1000 > Cheapest({y \in S : \A j \in 1..Len(y.ls) : Width(y.ls[j]) <= o.right}, o)
             /\ ~(\E y \in mine : \A j \in 1..Len(y.ls) : Width(y.ls[j]) <= o.right) THEN "does not fit although another rendering does"
     ELSE ""
================================================================================
