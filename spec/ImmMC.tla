------------------------------- MODULE ImmMC -------------------------------
\* Histories of documents: added to the store and edited from any version.
EXTENDS Imm, Json
CONSTANTS MaxOps, EmitMode, Part
\* tab: the store; roots: versions; trees: what each version must hold; o: the calls
VARIABLES tab, roots, trees, o
vars == <<tab, roots, trees, o>>
N(k, t, s) == [k |-> k, l |-> t, s |-> s, o |-> <<>>]
W(t) == N("Word", t, <<>>)
Par(s) == N("Paragraph", "", s)
Bold(s) == N("Bold", "", s)
Sub(l, title, s) == [k |-> "Subtree", l |-> l, s |-> s, o |-> <<[f |-> "title", n |-> Par(title)]>>]
Doc(s) == N("Document", "", s)
Docs == IF Part = 1 THEN {Doc(<<Par(<<W("a")>>), Par(<<W("a")>>)>>), Doc(<<Par(<<W("a"), W("b")>>)>>), Doc(<<>>)}
  ELSE IF Part = 2 THEN {Doc(<<Par(<<W("a"), Bold(<<W("a")>>)>>), Sub("1", <<W("a")>>, <<Par(<<W("a"), Bold(<<W("a")>>)>>)>>)>>)}
  ELSE {Doc(<<Par(<<W("a"), N("Space", " ", <<>>), W("a")>>), Sub("1", <<W("a"), Bold(<<W("b")>>)>>, <<Par(<<Bold(<<W("b")>>)>>), Sub("2", <<W("a")>>, <<>>)>>), Par(<<W("a"), N("Space", " ", <<>>), W("a")>>)>>),
        Doc(<<Par(<<Bold(<<W("a")>>), Bold(<<W("a")>>)>>), N("List", "", <<N("ListItem", "", <<Par(<<Bold(<<W("a")>>)>>)>>), N("ListItem", "", <<Par(<<W("b")>>)>>)>>)>>),
        Doc(<<Sub("1", <<>>, <<Sub("2", <<W("a")>>, <<Par(<<W("a")>>)>>), Sub("2", <<W("a")>>, <<Par(<<W("a")>>)>>)>>)>>),
        Doc(<<>>)}
\* new parts, by the node they go into
Inline == IF Part = 1 THEN {W("a"), W("b")} ELSE {W("a"), W("b"), Bold(<<W("a")>>), Bold(<<>>), Bold(<<W("b")>>)}
Block == IF Part = 1 THEN {Par(<<W("a")>>), Par(<<>>)} ELSE {Par(<<W("a")>>), Par(<<>>), Par(<<Bold(<<W("b")>>)>>), Sub("1", <<W("a")>>, <<>>), Sub("2", <<Bold(<<W("a")>>)>>, <<Par(<<W("b")>>)>>)}
News(k) == IF k \in {"Document", "Subtree", "ListItem"} THEN Block ELSE IF k = "List" THEN {N("ListItem", "", <<Par(<<W("a")>>)>>)} ELSE Inline
Steps(t) == {j - 1 : j \in 1..Len(t.s)} \cup (IF t.o = <<>> THEN {} ELSE {0 - 1})
RECURSIVE Paths(_)
Paths(t) == {<<>>} \cup UNION {{<<x>> \o p : p \in Paths(Step(t, x))} : x \in Steps(t)}
Inner(t) == {p \in Paths(t) : Walk(t, p).k \notin {"Word", "Space"}}
\* how a tree is written in a call
RECURSIVE Said(_)
Said(t) == [k |-> t.k, t |-> t.l, s |-> [j \in 1..Len(t.s) |-> Said(t.s[j])], o |-> IF t.o = <<>> THEN <<>> ELSE [j \in 1..Len(t.o[1].n.s) |-> Said(t.o[1].n.s[j])]]
None == [k |-> "Word", t |-> "", s |-> <<>>, o |-> <<>>]
Some(S) == IF EmitMode = "depth" /\ S # {} THEN {RandomElement(S)} ELSE S
\* a source: a new tree, or a node of some version that may stand in such a place
Class(k) == IF k \in {"Word", "Space", "Bold"} THEN 1 ELSE IF k = "ListItem" THEN 3 ELSE 2
Fits(k) == IF k \in {"Document", "Subtree", "ListItem"} THEN 2 ELSE IF k = "List" THEN 3 ELSE 1
Sources(k) == {[x |-> [b |-> 0, p |-> <<>>, t |-> Said(u)], u |-> u] : u \in Some(News(k))}
  \cup UNION {{[x |-> [b |-> v, p |-> p, t |-> None], u |-> Walk(trees[v], p)] : p \in Some({q \in Paths(trees[v]) : q # <<>> /\ q[Len(q)] >= 0 /\ Class(Walk(trees[v], q).k) = Fits(k)})} : v \in Some(1..Len(trees))}
E0 == [k |-> "", p |-> <<>>, i |-> 0, j |-> 0, bounded |-> TRUE, src |-> <<>>]
Alone(e) == [e |-> e, src |-> <<>>]
\* the edits of the node at p
EditsAt(t, p) ==
  LET u == Walk(t, p) n == Len(u.s) B == [E0 EXCEPT !.p = p] IN
    {[e |-> [B EXCEPT !.k = "set", !.i = i, !.src = <<y.x>>], src |-> <<y.u>>] : i \in 0..(n - 1), y \in Some(Sources(u.k))}
    \cup {[e |-> [B EXCEPT !.k = "insert", !.i = i, !.src = <<y.x>>], src |-> <<y.u>>] : i \in 0..n, y \in Some(Sources(u.k))}
    \cup {[e |-> [B EXCEPT !.k = "inserts", !.i = i, !.src = [j \in 1..m |-> y.x]], src |-> [j \in 1..m |-> y.u]] : i \in 0..n, y \in Some(Sources(u.k)), m \in 0..2}
    \cup {[e |-> [B EXCEPT !.k = "append", !.src = <<y.x>>], src |-> <<y.u>>] : y \in Some(Sources(u.k))}
    \cup {Alone([B EXCEPT !.k = k, !.i = i]) : k \in {"drop", "pop", "dropid"}, i \in 0..(n - 1)}
    \cup {Alone([B EXCEPT !.k = "swap", !.i = i, !.j = j]) : i \in 0..(n - 1), j \in 0..(n - 1)}
    \cup {Alone([B EXCEPT !.k = "move", !.i = i, !.j = j, !.bounded = b]) : i \in 0..(n - 1), j \in {-5, -2, -1, 0, 1, 2}, b \in BOOLEAN}
    \cup (IF p = <<>> \/ p[Len(p)] < 0 THEN {} ELSE {[e |-> [B EXCEPT !.k = "replace", !.src = <<y.x>>], src |-> <<y.u>>] : y \in Some(Sources(Walk(t, SubSeq(p, 1, Len(p) - 1)).k))})
Edits(t) == UNION {EditsAt(t, p) : p \in Some(Inner(t))}
Changes(t, d) == ~Refused(Walk(t, d.e.p).s, d.e) /\ EditTree(t, d.e, d.src) # t
Apart(p, q) == \E k \in 1..(IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)) : p[k] # q[k]
\* several edits of one version at once, in separate places
Groups(t) == {<<d>> : d \in Edits(t)} \cup
  (IF EmitMode = "depth" THEN {g \in {<<x, y>> : x \in Edits(t), y \in Edits(t)} : Apart(g[1].e.p, g[2].e.p) /\ Changes(t, g[1]) /\ Changes(t, g[2])} ELSE {})
RECURSIVE AddSrc(_, _, _)
AddSrc(h, src, done) == IF src = <<>> THEN [tab |-> h, ns |-> done] ELSE LET x == AddTree(h, Head(src)) IN AddSrc(x.tab, Tail(src), Append(done, x.n))
RECURSIVE EditAll(_, _, _), EditTrees(_, _)
EditAll(h, r, g) == IF g = <<>> THEN [tab |-> h, n |-> r]
  ELSE LET a == AddSrc(h, Head(g).src, <<>>) x == EditStore(a.tab, r, Head(g).e, a.ns) IN EditAll(x.tab, x.n, Tail(g))
EditTrees(t, g) == IF g = <<>> THEN t ELSE EditTrees(EditTree(t, Head(g).e, Head(g).src), Tail(g))
Call(x) == o' = Append(o, x) /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(o')) ELSE TRUE)
AddDoc == \E d \in Some(Docs), c \in Some(0..Len(roots)) :
  LET h == AddTree(tab, d) IN
    /\ tab' = h.tab /\ roots' = Append(roots, h.n) /\ trees' = Append(trees, d)
    /\ Call([op |-> "tree", t |-> Said(d), c |-> c])
EditDoc == roots # <<>> /\ \E b \in Some(1..Len(roots)) : \E g \in Some(Groups(trees[b])) :
  /\ Call([op |-> "edit", b |-> b, e |-> [k \in 1..Len(g) |-> g[k].e]])
  /\ IF \E k \in 1..Len(g) : ~Changes(trees[b], g[k]) THEN UNCHANGED <<tab, roots, trees>>
     ELSE LET h == EditAll(tab, roots[b], g) IN
       tab' = h.tab /\ roots' = Append(roots, h.n) /\ trees' = Append(trees, EditTrees(trees[b], g))
Init == tab = <<>> /\ roots = <<>> /\ trees = <<>> /\ o = <<>>
Next == Len(o) < MaxOps /\ (IF roots = <<>> THEN AddDoc ELSE IF EmitMode = "depth" THEN (IF RandomElement(1..5) = 1 THEN AddDoc ELSE EditDoc) ELSE IF Part = 2 THEN EditDoc ELSE AddDoc \/ EditDoc)
View == <<tab, roots, trees>>
EmitInv == IF EmitMode = "depth" /\ Len(o) = MaxOps THEN PrintT("BEH|" \o ToJson(o)) ELSE TRUE
\* one node for one content, and one content for one node
Shared == Cardinality(Range(tab)) = Len(tab)
\* every version, however old, still holds what it was made of
Faithful == \A v \in 1..Len(roots) : Expand(tab, roots[v]) = trees[v]
\* same content, same node
SameNode == \A v, w \in 1..Len(roots) : (trees[v] = trees[w]) = (roots[v] = roots[w])
Kept == [][Len(tab) <= Len(tab') /\ SubSeq(tab', 1, Len(tab)) = tab /\ SubSeq(roots', 1, Len(roots)) = roots]_vars
=============================================================================
