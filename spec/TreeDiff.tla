-------------------------------- MODULE TreeDiff --------------------------------
\* Difference of two ordered labelled trees: a node is kept, moved or updated together
\* with the node it is mapped to, and is otherwise deleted or inserted.  The mapping itself
\* is a heuristic; what it must always satisfy is specified here.  Property C08.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
\* ---- trees: [k: kind, v: value, c: children]; flattened in preorder with parents
Leaf(k, v) == [k |-> k, v |-> v, c |-> <<>>]
RECURSIVE Size(_)
RECURSIVE SizeAll(_)
Size(t) == 1 + SizeAll(t.c)
SizeAll(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + SizeAll(Tail(q))
RECURSIVE Flat(_, _, _, _)
RECURSIVE FlatAll(_, _, _, _)
\* p: parent (0 for none), j: position under it, n: number of the first node
Flat(t, p, j, n) == <<[k |-> t.k, v |-> t.v, p |-> p, j |-> j]>> \o FlatAll(t.c, n, 0, n + 1)
FlatAll(q, p, j, n) == IF q = <<>> THEN <<>> ELSE Flat(Head(q), p, j, n) \o FlatAll(Tail(q), p, j + 1, n + Size(Head(q)))
Nodes(t) == Flat(t, 0, -1, 1)
RECURSIVE Height(_)
Height(t) == LET H == {Height(t.c[j]) : j \in 1..Len(t.c)} IN IF H = {} THEN 1 ELSE 1 + CHOOSE m \in H : \A x \in H : x <= m
RECURSIVE Chain(_, _)
Chain(A, x) == IF A[x].p = 0 THEN <<>> ELSE <<A[x].p>> \o Chain(A, A[x].p)
Kids(A, x) == SelectSeq([j \in 1..Len(A) |-> j], LAMBDA y : A[y].p = x)
\* ---- the mapping: m[x] is the new node of old node x, or 0
OneToOne(A, B, m, w) ==
  /\ Len(m) = Len(A) /\ Len(w) = Len(B)
  /\ \A x \in 1..Len(A) : m[x] \in 0..Len(B) /\ (m[x] # 0 => w[m[x]] = x)
  /\ \A y \in 1..Len(B) : w[y] \in 0..Len(A) /\ (w[y] # 0 => m[w[y]] = y)
SameKinds(A, B, m) == \A x \in 1..Len(A) : m[x] # 0 => A[x].k = B[m[x]].k
ParentKept(A, B, m, x) == (A[x].p = 0 /\ B[m[x]].p = 0) \/ (A[x].p # 0 /\ B[m[x]].p # 0 /\ m[A[x].p] = B[m[x]].p)
\* kinds of change that a mapped node may have
Allowed(A, B, m, x) ==
  IF A[x].v = B[m[x]].v THEN (IF ParentKept(A, B, m, x) THEN {"None", "Move"} ELSE {"Move"})
  ELSE (IF ParentKept(A, B, m, x) THEN {"Update", "UpdateMove"} ELSE {"UpdateMove"})
Still == {"None", "Update"}
\* under a parent that only had its children rearranged, those that stay keep their order
Rearranged(A, B, m, p) == LET q == Kids(A, p) IN m[p] # 0 /\ {m[q[j]] : j \in 1..Len(q)} = {Kids(B, m[p])[j] : j \in 1..Len(Kids(B, m[p]))}
InOrder(A, B, m, ch) == \A x, y \in 1..Len(A) :
  (x < y /\ A[x].p = A[y].p /\ A[x].p # 0 /\ Rearranged(A, B, m, A[x].p) /\ m[x] # 0 /\ m[y] # 0 /\ ch[x] \in Still /\ ch[y] \in Still) => m[x] < m[y]
\* ---- least cost of turning one sequence of leaves into another
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Dist(_, _, _)
Dist(p, q, o) ==
  IF p = <<>> THEN o.ins * Len(q) ELSE IF q = <<>> THEN o.del * Len(p)
  ELSE IF Head(p) = Head(q) THEN Dist(Tail(p), Tail(q), o)
  ELSE Min({o.del + Dist(Tail(p), q, o), o.ins + Dist(p, Tail(q), o)}
           \cup (IF Head(p)[1] = Head(q)[1] THEN {o.upd + Dist(Tail(p), Tail(q), o)} ELSE {}))
Labels(q) == [j \in 1..Len(q) |-> <<q[j].k, q[j].v>>]
Count(S) == Cardinality(S)
Spent(A, B, m, w, o) == o.del * Count({x \in 1..Len(A) : m[x] = 0}) + o.ins * Count({y \in 1..Len(B) : w[y] = 0})
  + o.upd * Count({x \in 1..Len(A) : m[x] # 0 /\ A[x].v # B[m[x]].v})
\* two trees of leaves under equal roots, small enough for the exact matching
Plain(a, b, o) == Height(a) <= 2 /\ Height(b) <= 2 /\ o.minh >= 2 /\ ~o.stop /\ a.k = b.k /\ a.v = b.v /\ Size(a) <= o.maxs /\ Size(b) <= o.maxs
  /\ Size(a) <= 7 /\ Size(b) <= 7
\* ---- "" or what is wrong with a difference r of trees a and b under options o
Point(A, x) == <<A[x].p, A[x].j>>
Path(A, x) == LET q == Chain(A, x) IN
  << <<0, -1>> >> \o [j \in 1..Len(q) |-> LET up == <<x>> \o q  z == up[Len(q) + 1 - j] IN Point(A, z)]
WrongChange(A, B, r, e) ==
  CASE e.k = "Delete" -> ~(e.s # 0 /\ e.d = 0)
    [] e.k = "Insert" -> ~(e.s = 0 /\ e.d # 0 /\ e.to = <<B[e.d].p, IF e.d = 1 THEN 0 ELSE B[e.d].j>>)
    [] e.k = "Move" -> ~(e.s # 0 /\ e.d = r.m[e.s] /\ e.from[1] = A[e.s].p /\ e.to[1] = B[e.d].p /\ e.upd = (A[e.s].v # B[e.d].v))
    [] OTHER -> ~(e.s # 0 /\ e.d = r.m[e.s])
Why(a, b, o, r) ==
  LET A == Nodes(a)  B == Nodes(b) IN
  IF ~OneToOne(A, B, r.m, r.w) THEN "mapping is not one to one"
  ELSE IF ~SameKinds(A, B, r.m) THEN "mapped nodes of different kinds"
  ELSE IF \E x \in 1..Len(A) : r.m[x] = 0 /\ r.cs[x] # "Delete" THEN "unmapped old node is not deleted"
  ELSE IF \E y \in 1..Len(B) : r.w[y] = 0 /\ r.cd[y] # "Insert" THEN "unmapped new node is not inserted"
  ELSE IF \E x \in 1..Len(A) : r.m[x] # 0 /\ (r.cs[x] # r.cd[r.m[x]] \/ r.cs[x] \notin Allowed(A, B, r.m, x)) THEN "change of a mapped node"
  ELSE IF ~InOrder(A, B, r.m, r.cs) THEN "nodes change order without being moved"
  ELSE IF ~o.stop /\ a.k = b.k /\ r.m[1] = 0 /\ r.w[1] = 0 THEN "roots left unmapped"
  ELSE IF a = b /\ (Size(a) <= o.maxs \/ Height(a) > o.minh) /\ ~o.stop /\ o.first = "top"
          /\ ~(r.m = [x \in 1..Len(A) |-> x] /\ \A x \in 1..Len(A) : r.cs[x] = "None") THEN "identical trees differ"
  ELSE IF Plain(a, b, o) /\ Spent(A, B, r.m, r.w, o) # Dist(Labels(a.c), Labels(b.c), o) THEN "a cheaper mapping exists"
  ELSE IF [j \in 1..Len(r.all) |-> <<r.all[j].s, r.all[j].d>>] # [y \in 1..Len(B) |-> <<r.w[y], y>>] \o SelectSeq([x \in 1..Len(A) |-> <<x, 0>>], LAMBDA q : r.m[q[1]] = 0)
       THEN "list of changes"
  ELSE IF \E j \in 1..Len(r.all) : WrongChange(A, B, r, r.all[j]) THEN "details of a change"
  ELSE IF \E j \in 1..Len(r.all) : r.all[j].d # 0 /\ (r.all[j].dchain # <<r.all[j].d>> \o Chain(B, r.all[j].d) \/ r.all[j].dpath # Path(B, r.all[j].d)) THEN "place in the new tree"
  ELSE IF \E j \in 1..Len(r.all) : r.all[j].s # 0 /\ (r.all[j].schain # <<r.all[j].s>> \o Chain(A, r.all[j].s) \/ r.all[j].spath # Path(A, r.all[j].s)) THEN "place in the old tree"
  ELSE IF r.some # Count({j \in 1..Len(r.all) : r.all[j].k # "None"}) THEN "changes without the unchanged"
  ELSE ""
\* ---- edit script of the eager comparison: matched pairs are walked from the roots; a pair
\* of children that stay at the same place with the same value needs no edit
\* edits: [k, s, d, si, di]
OfNew(ed, y) == {j \in 1..Len(ed) : ed[j].d = y}
OfOld(ed, x) == {j \in 1..Len(ed) : ed[j].s = x}
RECURSIVE WrongPair(_, _, _, _, _)
WrongPair(A, B, ed, x, y) ==
  LET ka == Kids(A, x)  kb == Kids(B, y)
      \* partner of the j-th new child: the old node named by its edit, or the silent one at its place
      With(j) == LET E == OfNew(ed, kb[j]) IN
        IF E = {} THEN (IF j <= Len(ka) THEN ka[j] ELSE 0)
        ELSE LET e == ed[CHOOSE z \in E : TRUE] IN IF e.k = "Insert" THEN 0 ELSE e.s
  IN
  IF A[x].k # B[y].k THEN ""
  ELSE IF \E j \in 1..Len(kb) : Cardinality(OfNew(ed, kb[j])) > 1 THEN "new node edited twice"
  ELSE IF \E j \in 1..Len(ka) : Cardinality(OfOld(ed, ka[j])) > 1 THEN "old node edited twice"
  ELSE IF \E j \in 1..Len(kb) : OfNew(ed, kb[j]) = {} /\ (With(j) = 0 \/ OfOld(ed, With(j)) # {} \/ A[With(j)].v # B[kb[j]].v \/ A[With(j)].k # B[kb[j]].k) THEN "new node appears from nowhere"
  ELSE IF \E j \in 1..Len(ka) : OfOld(ed, ka[j]) = {} /\ ~(\E z \in 1..Len(kb) : z = j /\ OfNew(ed, kb[z]) = {}) THEN "old node disappears"
  ELSE IF \E j \in 1..Len(kb) : With(j) # 0 /\ With(j) \notin {ka[z] : z \in 1..Len(ka)} THEN "matched across parents"
  ELSE LET W == {WrongPair(A, B, ed, With(j), kb[j]) : j \in {z \in 1..Len(kb) : With(z) # 0}} \ {""} IN
    IF W = {} THEN "" ELSE CHOOSE z \in W : TRUE
WrongEdit(A, B, e) ==
  CASE e.k = "Insert" -> e.s # 0 \/ e.di # B[e.d].j
    [] e.k = "Delete" -> e.d # 0 \/ e.si # A[e.s].j
    [] e.k = "Move" -> A[e.s].v # B[e.d].v \/ A[e.s].k # B[e.d].k \/ e.si # A[e.s].j \/ e.di # B[e.d].j \/ e.si = e.di
    [] e.k = "Update" -> A[e.s].v = B[e.d].v \/ (IF e.s = 1 /\ e.d = 1 THEN e.si # 0 \/ e.di # 0 ELSE A[e.s].k # B[e.d].k \/ e.si # A[e.s].j \/ e.di # B[e.d].j)
WhyEager(a, b, ed) ==
  LET A == Nodes(a)  B == Nodes(b) IN
  IF \E j \in 1..Len(ed) : WrongEdit(A, B, ed[j]) THEN "edit"
  ELSE IF (A[1].v # B[1].v) # (\E j \in 1..Len(ed) : ed[j].s = 1 /\ ed[j].d = 1) THEN "root update"
  ELSE IF a = b /\ ed # <<>> THEN "identical trees differ"
  ELSE WrongPair(A, B, ed, 1, 1)
================================================================================
