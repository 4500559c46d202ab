------------------------------ MODULE SeqHelpers ------------------------------
\* Helpers of the scripts: a list is a sequence of element kinds; results name
\* elements by their position, so that equal elements are told apart.
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Idx(l)       == [k \in 1..Len(l) |-> k]
Hit(l, p, k) == l[k] \in p

RECURSIVE SkipL(_, _, _)
SkipL(l, p, k) == IF k <= Len(l) /\ Hit(l, p, k) THEN SkipL(l, p, k + 1) ELSE k
RECURSIVE SkipR(_, _, _)
SkipR(l, p, k) == IF k >= 1 /\ Hit(l, p, k) THEN SkipR(l, p, k - 1) ELSE k
From(a, b)     == [k \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + k - 1]
TrimL(l, p)    == From(SkipL(l, p, 1), Len(l))
TrimR(l, p)    == From(1, SkipR(l, p, Len(l)))
TrimB(l, p)    == From(SkipL(l, p, 1), SkipR(l, p, Len(l)))

\* maximal runs of elements the predicate does not select
RECURSIVE Part(_, _, _, _)
Part(l, p, k, cur) ==
    IF k > Len(l) THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
    ELSE IF Hit(l, p, k) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Part(l, p, k + 1, <<>>)
    ELSE Part(l, p, k + 1, Append(cur, k))

FirstAt(l, p) == LET k == SkipL(l, {x \in {l[j] : j \in 1..Len(l)} : x \notin p}, 1) IN IF k > Len(l) THEN -1 ELSE k - 1
TrueIdx(l)    == LET True(k) == l[k] # 0 IN SelectSeq(Idx(l), True)
AllDistinct(l) == \A a, b \in 1..Len(l) : a # b => l[a] # l[b]

\* control sequences: ESC [ parameters(48..63)* intermediates(32..47)* final(64..126)
RECURSIVE Span(_, _, _, _)
Span(t, k, a, b) == IF k <= Len(t) /\ t[k] >= a /\ t[k] <= b THEN Span(t, k + 1, a, b) ELSE k
RECURSIVE NoAnsi(_, _)
NoAnsi(t, k) ==
    IF k > Len(t) THEN <<>>
    ELSE IF t[k] = 27 /\ k < Len(t) /\ t[k + 1] = 91
         THEN LET f == Span(t, Span(t, k + 2, 48, 63), 32, 47)
              IN IF f <= Len(t) /\ t[f] >= 64 /\ t[f] <= 126 THEN NoAnsi(t, f + 1) ELSE <<t[k]>> \o NoAnsi(t, k + 1)
         ELSE <<t[k]>> \o NoAnsi(t, k + 1)

-------------------------------------------------------------------------------
\* The object walker as a state machine: every object met is announced with the
\* objects it was reached through; each one is opened once, and announced again
\* when everything below it is done.
\* w = [seen, pre, post, stack];  stack holds <<node, number of children handled>>
Walk0(root) == [seen |-> {}, pre |-> <<>>, post |-> <<>>, stack |-> <<>>, meet |-> root]
Ctx(st)     == [k \in 1..Len(st) |-> st[k][1]]
WDone(w)    == w.meet = 0 /\ w.stack = <<>>
WStep(w, e) ==
    IF w.meet # 0
    THEN LET x == w.meet
             v == [w EXCEPT !.pre = Append(@, <<x, Ctx(w.stack)>>), !.meet = 0]
         IN IF x \in w.seen THEN v ELSE [v EXCEPT !.seen = @ \cup {x}, !.stack = Append(@, <<x, 0>>)]
    ELSE LET n   == Len(w.stack)
             top == w.stack[n]
         IN IF top[2] < Len(e[top[1]])
            THEN [w EXCEPT !.stack[n][2] = @ + 1, !.meet = e[top[1]][top[2] + 1]]
            ELSE [w EXCEPT !.stack = SubSeq(@, 1, n - 1), !.post = Append(@, <<top[1], Ctx(SubSeq(w.stack, 1, n - 1))>>)]
RECURSIVE WRun(_, _)
WRun(w, e) == IF WDone(w) THEN w ELSE WRun(WStep(w, e), e)

Answer(o) ==
    IF o.op = "walk" THEN LET w == WRun(Walk0(o.root), o.e)
                          IN [v |-> "ok", x |-> [pre |-> IF o.cb \in {"both", "pre"} THEN w.pre ELSE <<>>, post |-> IF o.cb \in {"both", "post"} THEN w.post ELSE <<>>, ctx |-> 1]]
    ELSE IF o.op = "ansi" THEN [v |-> "ok", x |-> NoAnsi(o.t, 1)]
    ELSE LET l == o.l   p == {o.p[k] : k \in 1..Len(o.p)}
             ok(x) == [v |-> "ok", x |-> x]
         IN CASE o.op = "left"   -> ok(TrimL(l, p))
              [] o.op = "right"  -> ok(TrimR(l, p))
              [] o.op = "both"   -> ok(TrimB(l, p))
              [] o.op = "part"   -> ok(Part(l, p, 1, <<>>))
              [] o.op = "index"  -> ok(<<FirstAt(l, p)>>)
              [] o.op = "first"  -> ok(IF FirstAt(l, p) = -1 THEN <<>> ELSE <<FirstAt(l, p) + 1>>)
              [] o.op = "drop"   -> ok(TrueIdx(l))
              [] o.op = "unique" -> IF AllDistinct(l) THEN ok(<<>>) ELSE [v |-> "err", x |-> <<>>]
              [] o.op = "splice" -> ok(IF l # <<>> /\ l[1] # 0 THEN <<7>> ELSE <<>>)
              [] o.op = "cond"   -> ok(IF o.src = "gen" THEN (IF l # <<>> /\ l[1] \in p THEN <<1>> ELSE <<2>>)
                                       ELSE IF FirstAt(l, p) = -1 THEN <<>> ELSE <<FirstAt(l, p) + 1>>)
===============================================================================
