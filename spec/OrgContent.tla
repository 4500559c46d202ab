------------------------------ MODULE OrgContent ------------------------------
\* What a document says, apart from how it is written: its parts in reading order,
\* every part with its depth, kind and text.  Blank lines say nothing.
EXTENDS OrgDoc

It1(k, t) == <<[d |-> 0, k |-> k, t |-> t]>>
Deeper(ps) == [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.d = @ + 1]]
Holds(k, t, ps) == It1(k, t) \o Deeper(ps)

\* Time stamps keep date and time, the name of the day follows from them.
Mode(m) == CASE m = "+" -> "1" [] m = "++" -> "2" [] m = ".+" -> "3"
Period(p) == CASE p = "y" -> "0" [] p = "m" -> "1" [] p = "w" -> "2" [] p = "d" -> "3" [] p = "h" -> "4"
When(e) == (IF e.act THEN "<" ELSE "[") \o e.date \o (IF e.time = "" THEN "" ELSE " " \o e.time)
           \o CatS([i \in 1..Len(e.rep) |-> " " \o Mode(e.rep[i][1]) \o "/" \o e.rep[i][2] \o "/" \o Period(e.rep[i][3])])
           \o (IF e.warn = <<>> THEN "" ELSE " 0/-" \o e.warn[1] \o "/" \o Period(e.warn[2])) \o (IF e.act THEN ">" ELSE "]")
Where(e) ==
  CASE e.p = "#" -> "custom:" \o e.a
    [] e.p # "" -> e.p \o e.a
    [] e.a = "*t" -> "title:/t@1"
    [] e.a = "./f" -> "file:./f"
    [] OTHER -> "internal:" \o e.a
TagName(e) == e.a \o (IF e.sub = <<>> THEN "" ELSE IF Len(e.sub) = 1 THEN "(" \o e.sub[1] \o ")" ELSE "(" \o e.sub[1] \o "," \o e.sub[2] \o ")")

RECURSIVE Says(_), Say(_), Raws(_)
Says(es) == IF es = <<>> THEN <<>> ELSE Say(Head(es)) \o (IF Len(es) = 1 THEN <<>> ELSE It1("Space", " ") \o Says(Tail(es)))
Raws(es) == IF es = <<>> THEN <<>> ELSE It1("RawText", ElemText(Head(es))) \o (IF Len(es) = 1 THEN <<>> ELSE It1("RawText", " ") \o Raws(Tail(es)))
SayPara(es) == Holds("Paragraph", "", Says(es))
Say(e) ==
  CASE e.k \in {"Word", "BigIdent"} -> It1(e.k, e.a)
    [] e.k = "Stop" -> It1("Word", e.a) \o It1("Punctuation", e.b)
    [] e.k \in Markup -> Holds(e.k, "", Says(e.in))
    [] e.k = "Verbatim" -> Holds("Verbatim", "", Raws(e.in))
    [] e.k = "Monospace" -> Holds("Monospace", "", It1("RawText", e.a))
    [] e.k \in Critics -> Holds("CriticMarkup", e.k, SayPara(e.in))
    [] e.k = "swap" -> Holds("CriticMarkup", "swap", SayPara(e.in) \o SayPara(e.to))
    [] e.k = "link" -> Holds("Link", Where(e), IF e.in = <<>> THEN <<>> ELSE SayPara(e.in))
    [] e.k = "url" -> It1("Link", "raw:" \o e.p \o e.a)
    [] e.k = "foot" -> It1("Link", "footnote:" \o e.a)
    [] e.k = "note-in" -> Holds("InlineFootnote", "", SayPara(e.in))
    [] e.k = "tag" -> It1("HashTag", TagName(e))
    [] e.k = "at" -> It1("AtMention", e.a)
    [] e.k = "hole" -> It1("Placeholder", e.a)
    [] e.k = "stamp" -> It1("Time", When(e))
    [] e.k = "range" -> It1("TimeRange", When(e.from) \o When(e.to))
    [] e.k = "code" -> Holds("BlockCode", e.p, It1("code", e.a))
    [] e.k = "raw" -> It1("InlineExport", e.p \o ":" \o e.a)
    [] e.k = "target" -> It1("RadioTarget", InText(e.in))
    [] e.k = "symbol" -> Holds("Symbol", e.a, (IF e.par = "" THEN <<>> ELSE It1("param", e.par)) \o Cat([i \in 1..Len(e.bod) |-> SayPara(e.bod[i])]))
    [] e.k = "escape" -> It1("Escaped", e.a)

RECURSIVE SayLines(_)
SayLines(ls) == IF Len(ls) = 1 THEN Says(ls[1]) ELSE Says(Head(ls)) \o It1("Newline", "") \o SayLines(Tail(ls))

Box(b) == CASE b = "" -> <<>> [] b = "[ ]" -> It1("checkbox", " ") [] b = "[X]" -> It1("checkbox", "X") [] b = "[-]" -> It1("checkbox", "-")
RECURSIVE SayItems(_, _, _)
SayItems(its, from, ind) ==
  IF from > Len(its) \/ its[from].ind < ind THEN [t |-> <<>>, n |-> from]
  ELSE LET it == its[from]
           deeper == from < Len(its) /\ its[from + 1].ind > ind
           sub == IF deeper THEN SayItems(its, from + 1, its[from + 1].ind) ELSE [t |-> <<>>, n |-> from + 1]
           node == Holds("ListItem", it.bul, Box(it.box) \o (IF it.tag = <<>> THEN <<>> ELSE Holds("header", "", Says(it.tag)))
                                             \o SayPara(it.in) \o Cat([i \in 1..Len(it.more) |-> SayPara(it.more[i].in)]) \o (IF deeper THEN Holds("List", "", sub.t) ELSE <<>>))
           rest == SayItems(its, sub.n, ind)
       IN [t |-> node \o rest.t, n |-> rest.n]

\* Named arguments have no order among them.
SayArg(a) == It1("arg", IF a[1] = "" THEN a[2] ELSE a[1] \o "=" \o a[2])
SayArgs(as) == IF Len(as) = 2 /\ as[1][1] = ":w" THEN SayArg(as[2]) \o SayArg(as[1]) ELSE Cat([i \in 1..Len(as) |-> SayArg(as[i])])
PlanOf(b, w, k) == Cat([i \in 1..Len(b.plan) |-> IF b.plan[i][1] = w THEN It1(k, When(b.plan[i][2])) ELSE <<>>])
PropOf(b, w) == LET is == {i \in 1..Len(b.props) : b.props[i][1] = w} IN IF is = {} THEN "" ELSE b.props[CHOOSE i \in is : TRUE][2]
SayProp(p) ==
  CASE p[1] = ":created:" -> It1("property", "Created=2024-01-02 10:20")
    [] p[1] = ":custom_id:" -> It1("property", "CustomId=" \o p[2])
    [] p[1] = ":effort:" -> It1("property", "Effort=" \o p[2])
    [] p[1] = ":visibility:" -> It1("property", "Visibility=0")
    [] p[1] \in {":id:", ":description:"} -> <<>>
    [] OTHER -> It1("property", "CustomRaw=foo=" \o p[2])
\* A subtree is commented out by the first word of its title and archived by a tag.
Aside(b) == b.in[1].k = "BigIdent" /\ b.in[1].a = "COMMENT"
SayHead(b) ==
  (IF b.todo = "" \/ b.prio = "" THEN <<>> ELSE It1("todo", b.todo)) \o (IF b.prio = "" THEN <<>> ELSE It1("priority", b.prio))
  \o Holds("title", "", (IF b.todo # "" /\ b.prio = "" THEN It1("BigIdent", b.todo) \o It1("Space", " ") ELSE <<>>) \o Says(IF Aside(b) THEN Tail(b.in) ELSE b.in))
  \o (CASE b.done = "" -> <<>> [] b.done = "[1/2]" -> It1("completion", "1/2") [] b.done = "[50%]" -> It1("completion", "50%"))
  \o Cat([i \in 1..Len(b.tags) |-> IF b.tags[i] = "ARCHIVE" THEN <<>> ELSE It1("HashTag", b.tags[i])])
  \o (IF Aside(b) THEN It1("comment", "") ELSE <<>>) \o (IF \E i \in 1..Len(b.tags) : b.tags[i] = "ARCHIVE" THEN It1("archived", "") ELSE <<>>)
  \o PlanOf(b, "SCHEDULED", "scheduled") \o PlanOf(b, "DEADLINE", "deadline") \o PlanOf(b, "CLOSED", "closed")
  \o (IF PropOf(b, ":id:") = "" THEN <<>> ELSE It1("id", PropOf(b, ":id:")))
  \o (IF PropOf(b, ":description:") = "" THEN <<>> ELSE Holds("description", "", It1("Word", PropOf(b, ":description:"))))
  \o Cat([i \in 1..Len(b.props) |-> SayProp(b.props[i])])

\* What stands in the head of the document, and what belongs to the next block.
Heads(b) == b.k \in {"title", "tags"} \/ (b.k = "line" /\ b.w = "startup")
Belongs == {"name", "attr"}
RECURSIVE SayBlock(_), SayAll(_, _, _)
SayBlock(b) ==
  CASE b.k = "para" -> Holds("Paragraph", "", SayLines(b.ls))
    [] b.k = "list" -> Holds("List", "", SayItems(b.its, 1, b.its[1].ind).t)
    [] b.k = "src" -> Holds("BlockCode", b.lang, SayArgs(b.args) \o Cat([i \in 1..Len(b.ls) |-> It1("code", b.ls[i])]))
    [] b.k = "example" -> Holds("BlockExample", "", Cat([i \in 1..Len(b.ls) |-> (IF i = 1 THEN <<>> ELSE It1("RawText", "\n")) \o It1("RawText", b.ls[i])]))
    [] b.k = "wrap" -> Holds(WrapKind(b.w), "", SayAll(b.in, 1, 0).t)
    [] b.k = "table" -> Holds("Table", "", Cat([i \in 1..Len(b.rows) |-> Holds("row", "", Cat([j \in 1..Len(b.rows[i]) |-> Holds("cell", "", SayPara(b.rows[i][j]))]))]))
    [] b.k = "lit" -> Holds("ColonExample", "", Cat([i \in 1..Len(b.ls) |-> It1("RawText", b.ls[i])]))
    [] b.k = "rule" -> It1("TextSeparator", "")
    [] Heads(b) \/ b.k = "remark" -> <<>>
    [] b.k = "line" -> IF b.w \in DOMAIN KnownLine THEN It1(KnownLine[b.w], b.a) ELSE It1("CmdCustomRaw", b.w \o "=" \o b.a)
    [] b.k = "says" -> IF b.w \in DOMAIN KnownLine THEN Holds(KnownLine[b.w], "", Says(b.in)) ELSE Holds("CmdCustomText", b.w, SayPara(b.in))
    [] b.k = "name" -> It1("CmdName", b.a)
    [] b.k = "attr" -> Holds("CmdAttr", b.w, SayArgs(b.args))
SayAll(bs, from, lvl) ==
  IF from > Len(bs) \/ (bs[from].k = "head" /\ bs[from].lvl <= lvl) THEN [t |-> <<>>, n |-> from]
  ELSE IF bs[from].k = "head"
       THEN LET body == SayAll(bs, from + 1, bs[from].lvl) rest == SayAll(bs, body.n, lvl)
            IN [t |-> Holds("Subtree", ToString(bs[from].lvl), SayHead(bs[from]) \o body.t) \o rest.t, n |-> rest.n]
       ELSE LET rest == SayAll(bs, from + 1, lvl) IN [t |-> SayBlock(bs[from]) \o rest.t, n |-> rest.n]
SayDoc(bs) == Holds("Document", "", Cat([i \in 1..Len(bs) |-> IF bs[i].k = "title" THEN Holds("title", "", SayPara(bs[i].in)) ELSE <<>>])
                                    \o Cat([i \in 1..Len(bs) |-> IF bs[i].k = "tags" THEN Cat([j \in 1..Len(bs[i].ts) |-> It1("filetag", bs[i].ts[j])]) ELSE <<>>])
                                    \o Cat([i \in 1..Len(bs) |-> IF bs[i].k = "line" /\ bs[i].w = "startup" THEN It1("startup", bs[i].a) ELSE <<>>])
                                    \o SayAll(bs, 1, 0).t)

\* Title, file tags and how to start stand at most once each and before everything else.
Ordered(bs) == /\ \A i, j \in 1..Len(bs) : (i < j /\ Heads(bs[j])) => (Heads(bs[i]) /\ bs[i].k # bs[j].k)
\* Nothing belongs to a block that follows.
Plain(bs) == \A i \in 1..Len(bs) : bs[i].k \notin Belongs

\* Blank lines, and the end of the last line of a paragraph, say nothing.
Spoken(ps) == LET keep(i) == ps[i].k # "Blank" /\ ~(ps[i].k = "Newline" /\ (i = Len(ps) \/ ps[i + 1].d < ps[i].d))
                  F[i \in 0..Len(ps)] == IF i = 0 THEN <<>> ELSE IF keep(i) THEN Append(F[i - 1], ps[i]) ELSE F[i - 1]
              IN F[Len(ps)]
===============================================================================
