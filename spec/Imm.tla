-------------------------------- MODULE Imm --------------------------------
\* Documents kept in a shared store.  A node of the store is what it is (k), its own
\* values (l), the nodes below it in order (s) and the nodes its fields refer to (o).
\* A version of a document is a root in the store.  An edit builds new nodes up to the
\* root and leaves every node that was there alone.
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Range(f) == {f[x] : x \in DOMAIN f}
\* ---- trees ----
RECURSIVE Expand(_, _)
Expand(tab, n) == [k |-> tab[n].k, l |-> tab[n].l,
  s |-> [j \in 1..Len(tab[n].s) |-> Expand(tab, tab[n].s[j])],
  o |-> [j \in 1..Len(tab[n].o) |-> [f |-> tab[n].o[j].f, n |-> Expand(tab, tab[n].o[j].n)]]]
TitleAt(o) == CHOOSE j \in 1..Len(o) : o[j].f = "title"
Step(t, x) == IF x < 0 THEN t.o[TitleAt(t.o)].n ELSE t.s[x + 1]
RECURSIVE Walk(_, _)
Walk(t, p) == IF p = <<>> THEN t ELSE Walk(Step(t, Head(p)), Tail(p))
RECURSIVE PutAt(_, _, _)
PutAt(t, p, u) == IF p = <<>> THEN u
  ELSE IF Head(p) < 0 THEN [t EXCEPT !.o[TitleAt(t.o)].n = PutAt(@, Tail(p), u)]
  ELSE [t EXCEPT !.s[Head(p) + 1] = PutAt(@, Tail(p), u)]
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertsAt(q, i, xs) == SubSeq(q, 1, i) \o xs \o SubSeq(q, i + 1, Len(q))
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
MoveTo(n, e) == IF e.bounded THEN e.i + e.j ELSE Clamp(e.i + e.j, 0, n - 1)
\* the parts of a node after an edit of it; positions count from 0
Edited(q, e, src) ==
  CASE e.k = "set" -> [q EXCEPT ![e.i + 1] = src[1]]
    [] e.k \in {"insert", "inserts"} -> InsertsAt(q, e.i, src)
    [] e.k = "append" -> Append(q, src[1])
    [] e.k \in {"drop", "pop"} -> RemoveAt(q, e.i + 1)
    [] e.k = "dropid" -> RemoveAt(q, Least({x \in 1..Len(q) : q[x] = q[e.i + 1]}))
    [] e.k = "swap" -> [q EXCEPT ![e.i + 1] = q[e.j + 1], ![e.j + 1] = q[e.i + 1]]
    [] e.k = "move" -> InsertsAt(RemoveAt(q, e.i + 1), MoveTo(Len(q), e), <<q[e.i + 1]>>)
    [] OTHER -> q
\* an edit that is refused
Refused(q, e) == (e.k = "move" /\ e.bounded /\ e.i + e.j \notin 0..(Len(q) - 1)) \/ (e.k = "swap" /\ e.i = e.j)
EditTree(t, e, src) == LET u == Walk(t, e.p) IN
  IF e.k = "replace" THEN PutAt(t, e.p, src[1]) ELSE PutAt(t, e.p, [u EXCEPT !.s = Edited(u.s, e, src)])
\* ---- the store ----
Kids(en) == Range(en.s) \cup {x.n : x \in Range(en.o)}
RECURSIVE Below(_, _)
Below(tab, n) == {n} \cup UNION {Below(tab, x) : x \in Kids(tab[n])}
\* nodes without structure of their own are not followed upwards
Followed(en) == en.k \notin {"Space", "Word", "BigIdent", "Time", "Punctuation", "Newline"}
Find(tab, en) == {j \in 1..Len(tab) : tab[j] = en}
\* one node for one content
Intern(tab, en) == IF Find(tab, en) # {} THEN [tab |-> tab, n |-> Least(Find(tab, en))] ELSE [tab |-> Append(tab, en), n |-> Len(tab) + 1]
RECURSIVE AddTree(_, _), AddAll(_, _, _)
AddAll(tab, q, done) == IF q = <<>> THEN [tab |-> tab, ns |-> done]
  ELSE LET h == AddTree(tab, Head(q)) IN AddAll(h.tab, Tail(q), Append(done, h.n))
AddTree(tab, t) ==
  LET a == AddAll(tab, t.s, <<>>)
      b == AddAll(a.tab, [j \in 1..Len(t.o) |-> t.o[j].n], <<>>) IN
    Intern(b.tab, [k |-> t.k, l |-> t.l, s |-> a.ns, o |-> [j \in 1..Len(t.o) |-> [f |-> t.o[j].f, n |-> b.ns[j]]]])
\* the nodes from the root down a path, and an edit built anew along it
StepN(tab, n, x) == IF x < 0 THEN tab[n].o[TitleAt(tab[n].o)].n ELSE tab[n].s[x + 1]
RECURSIVE WalkN(_, _, _)
WalkN(tab, n, p) == IF p = <<>> THEN n ELSE WalkN(tab, StepN(tab, n, Head(p)), Tail(p))
Trail(tab, n, p) == {WalkN(tab, n, SubSeq(p, 1, k)) : k \in 0..Len(p)}
RECURSIVE Rebuild(_, _, _, _)
Rebuild(tab, n, p, u) == IF p = <<>> THEN [tab |-> tab, n |-> u]
  ELSE LET h == Rebuild(tab, StepN(tab, n, Head(p)), Tail(p), u)
           en == IF Head(p) < 0 THEN [tab[n] EXCEPT !.o[TitleAt(tab[n].o)].n = h.n] ELSE [tab[n] EXCEPT !.s[Head(p) + 1] = h.n] IN
         Intern(h.tab, en)
\* src: nodes already in the store
EditStore(tab, root, e, src) == LET n == WalkN(tab, root, e.p) IN
  IF e.k = "replace" THEN Rebuild(tab, root, e.p, src[1])
  ELSE LET h == Intern(tab, [tab[n] EXCEPT !.s = Edited(tab[n].s, e, src)]) IN Rebuild(h.tab, root, e.p, h.n)
RECURSIVE Preorder(_, _)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
Preorder(tab, n) == <<n>> \o Flat([j \in 1..Len(tab[n].s) |-> Preorder(tab, tab[n].s[j])]) \o Flat([j \in 1..Len(tab[n].o) |-> Preorder(tab, tab[n].o[j].n)])
\* every place of a version as (node, node above)
RECURSIVE Spots(_, _, _)
Spots(tab, n, up) == <<<<n, up>>>> \o Flat([j \in 1..Len(tab[n].s) |-> Spots(tab, tab[n].s[j], n)]) \o Flat([j \in 1..Len(tab[n].o) |-> Spots(tab, tab[n].o[j].n, n)])
=============================================================================
