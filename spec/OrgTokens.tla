------------------------------- MODULE OrgTokens -------------------------------
\* The structural tokenizer: base tokens are put into lines, lines into groups,
\* groups are written out again with list markers in between, and the result is
\* read once more to give the tokens their final kinds.  A token is a record
\* [k, t, l]: kind, text as bytes, place (empty for an added marker).
\* Property O02.
EXTENDS BaseLexer

LineEnd == {"Newline", "MediumNewline", "LongNewline", "EndOfFile"}
BlockClose == {"CmdSrcEnd", "CmdCenterEnd", "CmdExampleEnd", "CmdQuoteEnd", "CmdExportEnd", "CmdVerseEnd", "CmdCommentEnd", "CmdTableEnd", "CmdRowEnd", "CmdCellEnd", "CmdDynamicBlockEnd"}
BlockOpen == {"CmdCenterBegin", "CmdExportBegin", "CmdExampleBegin", "CmdSrcBegin", "CmdQuoteBegin", "CmdVerseBegin", "CmdCommentBegin", "CmdTableBegin", "CmdRowBegin", "CmdCellBegin", "CmdDynamicBlockBegin"}

KindAt(q, k) == IF k \in 1..Len(q) THEN q[k].k ELSE "none"

\* ---- lines ------------------------------------------------------------------------
SpacesIn(w) == Cardinality({k \in 1..Len(w) : w[k] = 32})
LeadSpaces(w) == Run(w, 1, {32}) - 1
IndentOf(f) ==
  CASE f.k \in {"CmdExampleLine", "SrcContent"} -> LeadSpaces(f.t)
    [] f.k = "LeadingSpace" -> Len(f.t)
    [] f.k \in {"LeadingPlus", "LeadingNumber", "TreeClock", "LeadingMinus"} -> SpacesIn(f.t) + 2
    [] OTHER -> 0
CommandLine(q, k) == LET n == KindAt(q, k + 1) IN IF n \in BlockOpen THEN "open" ELSE IF n \in BlockClose THEN "close" ELSE "line"
LineKind(q) ==
  CASE q[1].k = "LeadingSpace" ->
         (CASE KindAt(q, 2) = "TreeClock" -> "item"
            [] KindAt(q, 2) = "Minus" -> IF KindAt(q, 3) = "Whitespace" THEN "item" ELSE "indented"
            [] KindAt(q, 2) \in {"ColonEnd", "ColonPropertyText", "ColonProperties", "ColonLogbook"} -> "property"
            [] KindAt(q, 2) = "LineCommand" -> CommandLine(q, 2)
            [] KindAt(q, 2) \in BlockClose -> "close"
            [] OTHER -> "indented")
    [] q[1].k = "Minus" -> IF KindAt(q, 2) = "Whitespace" THEN "item" ELSE "line"
    [] q[1].k \in {"LeadingNumber", "LeadingMinus", "LeadingPlus", "TreeClock"} -> "item"
    [] q[1].k = "LineCommand" -> CommandLine(q, 1)
    [] OTHER -> IF q[1].k \in BlockClose THEN "close" ELSE "line"
Line(q) == [q |-> q, ind |-> IndentOf(q[1]), k |-> LineKind(q)]
RECURSIVE LinesFrom(_, _, _)
LinesFrom(b, from, k) ==
  IF k > Len(b) THEN (IF from > Len(b) THEN <<>> ELSE <<Line(SubSeq(b, from, Len(b)))>>)
  ELSE IF b[k].k \in LineEnd THEN <<Line(SubSeq(b, from, k))>> \o LinesFrom(b, k + 1, k + 1)
  ELSE LinesFrom(b, from, k + 1)

\* ---- groups: [k, ind, lines] or [k |-> "block", ind, begin, subs, end] ----------------
RECURSIVE While(_, _, _, _)
While(ls, p, ks, ind) == IF p <= Len(ls) /\ ls[p].k \in ks /\ ind <= ls[p].ind THEN While(ls, p + 1, ks, ind) ELSE p
Leaf(k, ls, p, q) == [k |-> k, ind |-> ls[p].ind, lines |-> SubSeq(ls, p, q - 1)]
RECURSIVE GroupAt(_, _), Until(_, _, _)
\* groups from place p up to a closing line; <<groups, place>>
Until(ls, p, acc) == IF p > Len(ls) \/ ls[p].k = "close" THEN <<acc, p>> ELSE LET g == GroupAt(ls, p) IN Until(ls, g[2], Append(acc, g[1]))
GroupAt(ls, p) ==
  CASE ls[p].k \in {"line", "indented"} -> LET q == While(ls, p, {"line", "indented"}, ls[p].ind) IN <<Leaf("line", ls, p, q), q>>
    [] ls[p].k = "item" -> LET q == While(ls, p + 1, {"indented"}, ls[p].ind) IN <<Leaf("item", ls, p, q), q>>
    [] ls[p].k = "property" -> LET q == While(ls, p, {"property"}, 0) IN <<Leaf("property", ls, p, q), q>>
    [] ls[p].k = "close" -> <<Leaf("line", ls, p, p + 1), p + 1>>
    [] ls[p].k = "open" ->
         LET u == Until(ls, p + 1, <<>>)
             e == u[2]
         IN <<[k |-> "block", ind |-> ls[p].ind, begin |-> ls[p], subs |-> u[1], end |-> IF e > Len(ls) THEN <<>> ELSE ls[e].q], IF e > Len(ls) THEN e ELSE e + 1>>
RECURSIVE GroupsFrom(_, _)
GroupsFrom(ls, p) == IF p > Len(ls) THEN <<>> ELSE LET g == GroupAt(ls, p) IN <<g[1]>> \o GroupsFrom(ls, g[2])

\* ---- writing the groups out with list markers -------------------------------------------
Mark(k) == [k |-> k, t |-> <<>>, l |-> <<>>]
Marks(k, n) == [j \in 1..n |-> Mark(k)]
RECURSIVE Join(_, _)
Join(ls, k) == IF k > Len(ls) THEN <<>> ELSE ls[k].q \o Join(ls, k + 1)
IsSrc(g) == g.k = "block" /\ Len(g.subs) > 0 /\ g.subs[1].k # "block" /\ g.subs[1].lines[1].q[1].k \in {"SrcContent", "CmdExampleLine"}
RECURSIVE BodyLines(_, _)
BodyLines(subs, k) == IF k > Len(subs) THEN <<>> ELSE subs[k].lines \o BodyLines(subs, k + 1)
Empty(q) == (Len(q) = 2 /\ q[1].t = <<>> /\ q[2].k \in LineEnd) \/ (Len(q) = 1 /\ q[1].k \in LineEnd)
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the indentation all lines of a source block have in common is not part of the source
Cut(ls, ind) ==
  LET m == Smallest({ind} \cup {ls[k].ind : k \in {j \in 1..Len(ls) : ~Empty(ls[j].q)}})
  IN [k \in 1..Len(ls) |-> [ls[k] EXCEPT !.q = [@ EXCEPT ![1] = [@ EXCEPT !.t = SubSeq(@, m + 1, Len(@))]]]]
Below(ind, x) == Cardinality({k \in 1..Len(ind) : x < ind[k]})        \* ind is increasing
Breaking(g) == LET l == g.lines[Len(g.lines)] IN l.k = "item" /\ l.q[Len(l.q)].k = "LongNewline"
RECURSIVE Write(_, _, _)
\* ind: indentations of the lists that are open
Write(gs, k, ind) ==
  IF k > Len(gs) THEN Marks("Dedent", Len(ind))
  ELSE
  LET g == gs[k]
      n == Below(ind, g.ind)
      left == SubSeq(ind, 1, Len(ind) - n)
      top == IF ind = <<>> THEN -1 ELSE ind[Len(ind)]
      pre == IF g.k # "item" THEN <<Marks("Dedent", n), left>>
             ELSE IF top < g.ind THEN <<Marks("Indent", 1), Append(ind, g.ind)>>
             ELSE IF top > g.ind THEN <<Marks("Dedent", n) \o (IF left # <<>> /\ left[Len(left)] = g.ind THEN Marks("ListItemEnd", 1) ELSE <<>>), left>>
             ELSE IF k > 1 /\ gs[k - 1].k = "item" /\ Breaking(gs[k - 1]) THEN <<<<Mark("Dedent"), Mark("Indent")>>, ind>>
             ELSE <<Marks("SameIndent", 1), ind>>
      body == IF IsSrc(g) THEN g.begin.q \o Join(Cut(BodyLines(g.subs, 1), g.begin.ind), 1) \o g.end
              ELSE IF g.k = "block" THEN g.begin.q \o Write(g.subs, 1, <<>>) \o g.end
              ELSE Join(g.lines, 1)
  IN pre[1] \o body \o Write(gs, k + 1, pre[2])
Regrouped(b) == Write(GroupsFrom(LinesFrom(b, 1, 1), 1), 1, <<>>)

\* ---- final kinds ---------------------------------------------------------------------------
EmptyKinds == {"Whitespace", "EndOfFile", "Newline", "MediumNewline", "LongNewline", "AnyPunct", "LeadingSpace", "Colon", "Semicolon", "Comma", "StmtListBegin", "ParBegin", "ParEnd",
               "ForwardSlash", "Asterisk", "Underline", "Punctuation", "Dedent", "ListItemEnd", "none"}
Markup == ("Asterisk" :> "Bold") @@ ("ForwardSlash" :> "Italic") @@ ("Underline" :> "Underline") @@ ("Equals" :> "Verbatim") @@ ("Plus" :> "Strike") @@ ("Tilda" :> "Monospace")
MarkupKind(q, p) ==
  LET k == q[p].k
      before == KindAt(q, p - 1) \in EmptyKinds
      after == KindAt(q, p + 1) \in EmptyKinds
  IN CASE before /\ ~after -> Markup[k] \o "Begin"
       [] ~before /\ after -> Markup[k] \o "End"
       [] before /\ after -> IF k \in {"Tilda", "Equals"} THEN Markup[k] \o "Begin" ELSE Markup[k] \o "Unknown"
       [] OTHER -> IF k = "Equals" THEN "Equals" ELSE "Punctuation"
Drop(w, n) == SubSeq(w, n + 1, Len(w))
RECURSIVE RStrip(_, _)
RStrip(w, S) == IF w # <<>> /\ w[Len(w)] \in S THEN RStrip(SubSeq(w, 1, Len(w) - 1), S) ELSE w
LStrip(w, S) == SubSeq(w, Run(w, 1, S), Len(w))
AttrName(w) == RStrip(LStrip(Drop(w, 4), {95}), {32, 58})
kFoot == B("[fn:")
FootName(w) == LET a == IF Starts(w, kFoot) THEN Drop(w, 4) ELSE w IN IF a # <<>> /\ a[Len(a)] = 93 THEN SubSeq(a, 1, Len(a) - 1) ELSE a
As(x, k) == [x EXCEPT !.k = k]
Text(x, t) == [x EXCEPT !.t = t]
Prefix(x) == [k |-> "CmdPrefix", t |-> <<>>, l |-> x.l]
\* a quoted argument that was split is put together again
Opens(w) == w # <<>> /\ w[1] = 34
Closes(w) == w # <<>> /\ w[Len(w)] = 34
RECURSIVE ArgEnd(_, _), Texts(_, _, _)
ArgEnd(q, p) == IF KindAt(q, p) \notin {"Whitespace", "CmdRawArg"} THEN p ELSE IF Closes(q[p].t) THEN p + 1 ELSE ArgEnd(q, p + 1)
Texts(q, p, e) == IF p >= e THEN <<>> ELSE q[p].t \o Texts(q, p + 1, e)
RECURSIVE EndOfLine(_, _)
EndOfLine(q, p) == IF p > Len(q) \/ q[p].k \in LineEnd THEN p ELSE EndOfLine(q, p + 1)
RECURSIVE SkipSpaces(_, _)
SkipSpaces(q, p) == IF KindAt(q, p) = "Whitespace" THEN SkipSpaces(q, p + 1) ELSE p
\* what the token(s) at place p become: <<tokens, next place>>
RECURSIVE Map(_, _), MapLine(_, _, _)
MapLine(q, p, acc) == IF p > Len(q) \/ q[p].k \in LineEnd THEN <<acc, p>> ELSE LET m == Map(q, p) IN MapLine(q, m[2], acc \o m[1])
Command2(q, p) ==
  LET n == q[p + 1]
      head == <<As(q[p], "CmdPrefix"), IF n.k = "CmdAttr" THEN Text(n, AttrName(n.t)) ELSE n>>
      e == EndOfLine(q, p + 2)
  IN CASE n.k \in {"CmdExampleBegin", "CmdExportBegin", "CmdPropertyArgs"} -> <<head \o SubSeq(q, p + 2, e - 1), e>>
       [] n.k = "CmdSrcBegin" -> <<head \o SubSeq(q, p + 2, e - 1) \o <<Mark("CmdContentBegin")>>, IF e <= Len(q) THEN e + 1 ELSE e>>
       [] n.k = "CmdTitle" -> <<head, SkipSpaces(q, p + 2)>>
       [] n.k = "CmdPropertyText" -> MapLine(q, p + 3, Append(head, As(q[p + 2], "CmdRawArg")))
       [] OTHER -> <<head, p + 2>>
Map(q, p) ==
  LET x == q[p]
      One1(y) == <<<<y>>, p + 1>>
  IN CASE x.k = "LineCommand" -> Command2(q, p)
       [] x.k \in {"CmdExampleEnd", "CmdExportEnd", "CmdSrcEnd"} -> <<<<Prefix(x), x>>, p + 1>>
       [] x.k = "CmdRawArg" /\ Opens(x.t) /\ ~Closes(x.t) ->
            LET e == ArgEnd(q, p + 1) IN IF Closes(q[e - 1].t) THEN <<<<Text(x, Texts(q, p, e))>>, e>> ELSE <<SubSeq(q, p, e - 1), e>>
       [] x.k = "At" -> One1(Text(x, Drop(x.t, 1)))
       [] x.k \in DOMAIN Markup -> One1(As(x, MarkupKind(q, p)))
       [] x.k = "EndOfFile" -> <<<<>>, p + 1>>
       [] x.k = "Escaped" -> One1(Text(x, Drop(x.t, 1)))
       [] x.k = "Placeholder" -> One1(Text(x, SubSeq(x.t, 2, Len(x.t) - 1)))
       [] x.k = "TextSrcBegin" -> One1(Text(x, Drop(x.t, 4)))
       [] x.k = "Word" -> One1(IF \A k \in 1..Len(x.t) : x.t[k] \in Upper \cup {95} THEN As(x, "BigIdent") ELSE x)
       [] x.k = "ColonExampleLine" -> One1(Text(x, Drop(x.t, 2)))
       [] x.k = "FootnoteLinked" -> One1(Text(x, FootName(x.t)))
       [] OTHER -> One1(x)
RECURSIVE MapAll(_, _, _)
MapAll(q, p, acc) == IF p > Len(q) THEN acc ELSE LET m == Map(q, p) IN MapAll(q, m[2], acc \o m[1])
Structural(b) == MapAll(Regrouped(b), 1, <<>>)

\* ---- what a user relies on --------------------------------------------------------------------
Added == {"Indent", "Dedent", "SameIndent", "ListItemEnd", "CmdContentBegin"}
\* list markers are balanced, also inside of every block
RECURSIVE Depth(_, _, _)
Depth(o, k, d) == IF k > Len(o) \/ d < 0 THEN d ELSE Depth(o, k + 1, IF o[k].k = "Indent" THEN d + 1 ELSE IF o[k].k = "Dedent" THEN d - 1 ELSE IF o[k].k \in {"SameIndent", "ListItemEnd"} /\ d = 0 THEN -1 ELSE d)
Balanced(o) == Depth(o, 1, 0) = 0
\* source places only grow: nothing is reordered or repeated
Ordered(o) == LET q == SelectSeq(o, LAMBDA x : x.l # <<>> /\ x.k # "CmdPrefix") IN \A k \in 2..Len(q) : q[k - 1].l[1] < q[k].l[1] \/ (q[k - 1].l[1] = q[k].l[1] /\ (q[k - 1].t = <<>> \/ q[k].t = <<>>))
\* every visible character that is not decoration is still there
Payload(x) ==
  CASE x.k = "CmdAttr" -> AttrName(x.t)
    [] x.k \in {"At", "Escaped"} -> Drop(x.t, 1)
    [] x.k = "Placeholder" -> SubSeq(x.t, 2, Len(x.t) - 1)
    [] x.k = "TextSrcBegin" -> Drop(x.t, 4)
    [] x.k = "ColonExampleLine" -> Drop(x.t, 2)
    [] x.k = "FootnoteLinked" -> FootName(x.t)
    [] OTHER -> x.t
RECURSIVE Visible(_, _)
Visible(q, k) == IF k > Len(q) THEN <<>> ELSE SelectSeq(q[k].t, LAMBDA c : c \notin {10, 32}) \o Visible(q, k + 1)
Kept(b, o) == Visible([k \in 1..Len(b) |-> Text(b[k], Payload(b[k]))], 1) = Visible(o, 1)
===============================================================================
