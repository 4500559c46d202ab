--------------------------------- MODULE OrgDoc ---------------------------------
\* Documents as a user thinks of them: subtrees, paragraphs, lists, blocks, tables
\* and inline markup.  `Text` writes a document down in org syntax, `Tree` is the
\* parse tree it stands for, in the order of the flat node storage: every node with
\* its kind, the number of nodes below it and the text of its token.
EXTENDS Integers, Sequences, FiniteSets, TLC

Leaf(k, t) == <<[k |-> k, x |-> 0, t |-> t]>>
Nt(k, kids) == <<[k |-> k, x |-> Len(kids), t |-> ""]>> \o kids
None == Leaf("Empty", "")

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE CatS(_)
CatS(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o CatS(Tail(ss))
RECURSIVE Stars(_)
Stars(k) == IF k = 0 THEN "" ELSE "*" \o Stars(k - 1)
RECURSIVE Pad(_)
Pad(k) == IF k = 0 THEN "" ELSE " " \o Pad(k - 1)

-------------------------------------------------------------------------------
\* Inline elements: [k, a] for atoms with text, [k, in] for those holding others.
Mark(k) == CASE k = "Bold" -> "*" [] k = "Italic" -> "/" [] k = "Underline" -> "_" [] k = "Strike" -> "+"
Markup == {"Bold", "Italic", "Underline", "Strike"}
Critic(k) == CASE k = "add" -> <<"{++", "++}">> [] k = "del" -> <<"{--", "--}">> [] k = "note" -> <<"{>>", "<<}">> [] k = "high" -> <<"{==", "==}">>
Critics == {"add", "del", "note", "high"}

Stamp(e) == (IF e.act THEN "<" ELSE "[") \o e.date \o (IF e.day = "" THEN "" ELSE " " \o e.day) \o (IF e.time = "" THEN "" ELSE " " \o e.time)
            \o CatS([i \in 1..Len(e.rep) |-> " " \o e.rep[i][1] \o e.rep[i][2] \o e.rep[i][3]]) \o (IF e.warn = <<>> THEN "" ELSE " -" \o e.warn[1] \o e.warn[2]) \o (IF e.act THEN ">" ELSE "]")
StampTree(e) == Nt(IF e.act THEN "StaticActiveTime" ELSE "StaticInactiveTime",
                   Leaf("RawText", e.date) \o (IF e.time = "" THEN None ELSE Leaf("RawText", e.time)) \o None
                   \o (IF e.rep = <<>> THEN None ELSE Nt("InlineStmtList", Cat([i \in 1..Len(e.rep) |-> Nt("InlineStmtList", Leaf("RawText", e.rep[i][1]) \o Leaf("RawText", e.rep[i][2] \o e.rep[i][3]))])))
                   \o (IF e.warn = <<>> THEN None ELSE Leaf("RawText", "-" \o e.warn[1] \o e.warn[2])))

RECURSIVE ElemText(_), InText(_), ElemTree(_), InTree(_)
InText(es) == IF es = <<>> THEN "" ELSE ElemText(Head(es)) \o (IF Len(es) = 1 THEN "" ELSE " " \o InText(Tail(es)))
ElemText(e) ==
  CASE e.k \in {"Word", "BigIdent"} -> e.a
    [] e.k = "Stop" -> e.a \o e.b
    [] e.k \in Markup -> Mark(e.k) \o InText(e.in) \o Mark(e.k)
    [] e.k = "Verbatim" -> "=" \o InText(e.in) \o "="
    [] e.k = "Monospace" -> "~" \o e.a \o "~"
    [] e.k \in Critics -> Critic(e.k)[1] \o InText(e.in) \o Critic(e.k)[2]
    [] e.k = "swap" -> "{~~" \o InText(e.in) \o "~>" \o InText(e.to) \o "~~}"
    [] e.k = "link" -> "[[" \o e.p \o e.a \o (IF e.in = <<>> THEN "" ELSE "][" \o InText(e.in)) \o "]]"
    [] e.k = "url" -> e.p \o e.a
    [] e.k = "foot" -> "[fn:" \o e.a \o "]"
    [] e.k = "note-in" -> "[fn::" \o InText(e.in) \o "]"
    [] e.k = "tag" -> "#" \o e.a \o (IF e.sub = <<>> THEN "" ELSE IF Len(e.sub) = 1 THEN "##" \o e.sub[1] ELSE "##[" \o e.sub[1] \o "," \o e.sub[2] \o "]")
    [] e.k = "at" -> "@" \o e.a
    [] e.k = "hole" -> "<" \o e.a \o ">"
    [] e.k = "stamp" -> Stamp(e)
    [] e.k = "range" -> Stamp(e.from) \o "--" \o Stamp(e.to)
    [] e.k = "code" -> "src_" \o e.p \o "{" \o e.a \o "}"
    [] e.k = "raw" -> "@@" \o e.p \o ":" \o e.a \o "@@"
    [] e.k = "target" -> (IF e.radio THEN "<<<" ELSE "<<") \o InText(e.in) \o (IF e.radio THEN ">>>" ELSE ">>")
    [] e.k = "symbol" -> "\\" \o e.a \o (IF e.par = "" THEN "" ELSE "[" \o e.par \o "]") \o CatS([i \in 1..Len(e.bod) |-> "{" \o InText(e.bod[i]) \o "}"])
    [] e.k = "escape" -> "\\" \o e.a
InTree(es) == IF es = <<>> THEN <<>> ELSE ElemTree(Head(es)) \o (IF Len(es) = 1 THEN <<>> ELSE Leaf("Space", " ") \o InTree(Tail(es)))
Para(es) == Nt("Paragraph", InTree(es))
RECURSIVE RawIn(_)
RawIn(es) == IF es = <<>> THEN <<>> ELSE Leaf("RawText", ElemText(Head(es))) \o (IF Len(es) = 1 THEN <<>> ELSE Leaf("RawText", " ") \o RawIn(Tail(es)))
ElemTree(e) ==
  CASE e.k \in {"Word", "BigIdent"} -> Leaf(e.k, e.a)
    [] e.k = "Stop" -> Leaf("Word", e.a) \o Leaf(IF e.b = ":" THEN "Colon" ELSE "Punctuation", e.b)
    [] e.k \in Markup -> Nt(e.k, InTree(e.in))
    [] e.k = "Verbatim" -> Nt("Verbatim", RawIn(e.in))
    [] e.k = "Monospace" -> Nt("Monospace", Leaf("RawText", e.a))
    [] e.k \in Critics -> Nt("CriticMarkStructure", Leaf("RawText", Critic(e.k)[1]) \o None \o Para(e.in))
    [] e.k = "swap" -> Nt("CriticMarkStructure", Leaf("RawText", "{~~") \o Para(e.in) \o Para(e.to))
    [] e.k = "link" -> Nt("Link", (IF e.p = "" THEN None ELSE Leaf("Word", e.p)) \o Leaf("RawText", e.a) \o (IF e.in = <<>> THEN None ELSE Para(e.in)))
    [] e.k = "url" -> Nt("Link", Leaf("Word", e.p) \o Leaf("RawText", e.a) \o None)
    [] e.k = "foot" -> Nt("Footnote", None \o Leaf("RawText", e.a))
    [] e.k = "note-in" -> Nt("InlineFootnote", Para(e.in))
    [] e.k = "tag" -> Nt("HashTag", Leaf("RawText", "#" \o e.a) \o Cat([i \in 1..Len(e.sub) |-> Nt("HashTag", Leaf("RawText", e.sub[i]))]))
    [] e.k = "at" -> Leaf("AtMention", e.a)
    [] e.k = "hole" -> Leaf("Placeholder", e.a)
    [] e.k = "stamp" -> StampTree(e)
    [] e.k = "range" -> Nt("TimeRange", StampTree(e.from) \o StampTree(e.to) \o None)
    [] e.k = "code" -> Nt("SrcInlineCode", Leaf("Word", e.p) \o None \o Nt("CodeLine", Leaf("CodeText", e.a)) \o None)
    [] e.k = "raw" -> Nt("InlineExport", Leaf("RawText", "@@" \o e.p) \o Leaf("RawText", ":" \o e.a \o "@@"))
    [] e.k = "target" -> Nt("RadioTarget", InTree(e.in))
    [] e.k = "symbol" -> Nt("Symbol", Leaf("Word", "\\" \o e.a) \o Nt("InlineStmtList", IF e.par = "" THEN <<>> ELSE Leaf("RawText", e.par)) \o Nt("InlineStmtList", Cat([i \in 1..Len(e.bod) |-> Para(e.bod[i])])))
    [] e.k = "escape" -> Leaf("Escaped", e.a)

-------------------------------------------------------------------------------
\* Blocks.  Every block carries the newlines `nl` that follow it.
RECURSIVE Lines(_, _)
Lines(ls, nl) == IF Len(ls) = 1 THEN InText(ls[1]) \o nl ELSE InText(Head(ls)) \o "\n" \o Lines(Tail(ls), nl)
RECURSIVE LinesTree(_)
LinesTree(ls) == IF Len(ls) = 1 THEN InTree(ls[1]) ELSE InTree(Head(ls)) \o Leaf("Newline", "\n") \o LinesTree(Tail(ls))
\* A single newline belongs to the paragraph, a longer one stands after it.
ParaNl(kids, nl) == IF nl = "\n" THEN Nt("Paragraph", kids \o Leaf("Newline", nl)) ELSE Nt("Paragraph", kids) \o Leaf("Newline", nl)

ItemText(it) == Pad(it.ind) \o it.bul \o " " \o (IF it.box = "" THEN "" ELSE it.box \o " ") \o (IF it.tag = <<>> THEN "" ELSE InText(it.tag) \o " :: ") \o InText(it.in) \o it.nl
                \o CatS([i \in 1..Len(it.more) |-> Pad(it.ind + 2) \o InText(it.more[i].in) \o it.more[i].nl])
\* Items at `from` and after it whose indentation is that of the list.
RECURSIVE ListKids(_, _, _)
ListKids(its, from, ind) ==
  IF from > Len(its) \/ its[from].ind < ind THEN [t |-> <<>>, n |-> from]
  ELSE LET it == its[from]
           deeper == from < Len(its) /\ its[from + 1].ind > ind
           sub == IF deeper THEN ListKids(its, from + 1, its[from + 1].ind) ELSE [t |-> <<>>, n |-> from + 1]
           node == Nt("ListItem", Leaf("RawText", Pad(it.ind) \o it.bul) \o None \o (IF it.box = "" THEN None ELSE Leaf("Checkbox", it.box)) \o (IF it.tag = <<>> THEN None ELSE Para(it.tag))
                      \o Nt("StmtList", ParaNl(InTree(it.in), it.nl) \o Cat([i \in 1..Len(it.more) |-> ParaNl(InTree(it.more[i].in), it.more[i].nl)]) \o (IF deeper THEN Nt("List", sub.t) ELSE <<>>)))
           rest == ListKids(its, sub.n, ind)
       IN [t |-> node \o rest.t, n |-> rest.n]
ListTree(its) == Nt("List", ListKids(its, 1, its[1].ind).t)

\* An argument without a name stands for itself.
Args(as) == CatS([i \in 1..Len(as) |-> (IF as[i][1] = "" THEN "" ELSE " " \o as[i][1]) \o " " \o as[i][2]])
ArgsTree(as) == Nt("InlineStmtList", Cat([i \in 1..Len(as) |-> Nt("AttrValue", (IF as[i][1] = "" THEN None ELSE Leaf("Word", as[i][1])) \o None \o Leaf("RawText", as[i][2]) \o None)]))
Cell(es) == Nt("TableCell", None \o Nt("StmtList", Para(es)))
Row(cs) == Nt("TableRow", None \o None \o Nt("StmtList", Cat([i \in 1..Len(cs) |-> Cell(cs[i])])))
WrapKind(w) == CASE w = "quote" -> "BlockQuote" [] w = "center" -> "BlockCenter" [] w = "verse" -> "BlockVerse" [] w = "comment" -> "BlockComment"

\* A line of source code; references to other pieces of code are told from shifts.
CodeTree(l) ==
  CASE l = "a >> b" -> Leaf("CodeText", "a ") \o Leaf("CodeText", ">>") \o Leaf("CodeText", " b")
    [] l = "a << b" -> Leaf("CodeText", "a ") \o Leaf("CodeText", "<<") \o Leaf("CodeText", " b")
    [] l = "a <<r>> b" -> Leaf("CodeText", "a ") \o Nt("CodeTangle", Leaf("Word", "r")) \o Leaf("CodeText", " b")
    [] OTHER -> Leaf("CodeText", l)

TagsText(ts) == IF ts = <<>> THEN "" ELSE " :" \o CatS([i \in 1..Len(ts) |-> ts[i] \o ":"])
HeadText(b) == Stars(b.lvl) \o " " \o (IF b.todo = "" THEN "" ELSE b.todo \o " ") \o (IF b.prio = "" THEN "" ELSE "[#" \o b.prio \o "] ") \o InText(b.in)
               \o (IF b.done = "" THEN "" ELSE " " \o b.done) \o TagsText(b.tags) \o b.nl
               \o CatS([i \in 1..Len(b.plan) |-> b.plan[i][1] \o ": " \o Stamp(b.plan[i][2]) \o (IF i = Len(b.plan) THEN "\n" ELSE " ")])
               \o (IF b.props = <<>> THEN "" ELSE ":properties:\n" \o CatS([i \in 1..Len(b.props) |-> b.props[i][1] \o " " \o b.props[i][2] \o "\n"]) \o ":end:\n")
\* Properties hold a line, or text of its own.
PropTree(p) == CASE p[1] = ":created:" -> Nt("Paragraph", StampTree([act |-> FALSE, date |-> "2024-01-02", day |-> "Tue", time |-> "10:20", rep |-> <<>>, warn |-> <<>>]))
                 [] p[1] = ":description:" -> Nt("Paragraph", Leaf("Word", p[2]))
                 [] OTHER -> Leaf("RawText", " " \o p[2])
\* A keyword is told from the title by the priority after it.
HeadTree(b) == Leaf("RawText", Stars(b.lvl)) \o (IF b.todo = "" \/ b.prio = "" THEN None ELSE Leaf("BigIdent", b.todo)) \o (IF b.prio = "" THEN None ELSE Leaf("SubtreeUrgency", "[#" \o b.prio \o "]"))
               \o Nt("Paragraph", (IF b.todo # "" /\ b.prio = "" THEN Leaf("BigIdent", b.todo) \o Leaf("Space", " ") ELSE <<>>) \o InTree(b.in) \o (IF b.done = "" /\ b.tags = <<>> THEN <<>> ELSE Leaf("Space", " ")))
               \o (IF b.done = "" THEN None ELSE Leaf("SubtreeCompletion", b.done))
               \o (IF b.tags = <<>> THEN None ELSE Nt("InlineStmtList", Cat([i \in 1..Len(b.tags) |-> Nt("HashTag", Leaf("RawText", b.tags[i]))])))
               \o (IF b.plan = <<>> THEN None ELSE Nt("StmtList", Cat([i \in 1..Len(b.plan) |-> Nt("InlineStmtList", Leaf("Word", b.plan[i][1] \o ":") \o StampTree(b.plan[i][2]))])))
               \o (IF b.props = <<>> THEN None ELSE Nt("Drawer", Nt("DrawerPropertyList", Cat([i \in 1..Len(b.props) |-> Nt("DrawerProperty", Leaf("RawText", b.props[i][1]) \o PropTree(b.props[i]))]))))

RECURSIVE BlockText(_), DocText(_)
BlockText(b) ==
  CASE b.k = "para" -> Lines(b.ls, b.nl)
    [] b.k = "list" -> CatS([i \in 1..Len(b.its) |-> ItemText(b.its[i])])
    [] b.k = "src" -> "#+begin_src " \o b.lang \o Args(b.args) \o "\n" \o CatS([i \in 1..Len(b.ls) |-> b.ls[i] \o "\n"]) \o "#+end_src" \o b.nl
    [] b.k = "example" -> "#+begin_example\n" \o CatS([i \in 1..Len(b.ls) |-> b.ls[i] \o "\n"]) \o "#+end_example" \o b.nl
    [] b.k = "wrap" -> "#+begin_" \o b.w \o "\n" \o DocText(b.in) \o "#+end_" \o b.w \o b.nl
    [] b.k = "table" -> CatS([i \in 1..Len(b.rows) |-> "|" \o CatS([j \in 1..Len(b.rows[i]) |-> " " \o InText(b.rows[i][j]) \o " |"]) \o (IF i = Len(b.rows) THEN b.nl ELSE IF b.sep THEN "\n|---|\n" ELSE "\n")])
    [] b.k = "lit" -> CatS([i \in 1..Len(b.ls) |-> ": " \o b.ls[i] \o (IF i = Len(b.ls) THEN b.nl ELSE "\n")])
    [] b.k = "rule" -> "-----" \o b.nl
    [] b.k = "title" -> "#+title: " \o InText(b.in) \o b.nl
    [] b.k = "remark" -> "# " \o b.a \o b.nl
    [] b.k = "line" -> "#+" \o b.w \o ": " \o b.a \o b.nl
    [] b.k = "says" -> "#+" \o b.w \o ": " \o InText(b.in) \o b.nl
    [] b.k = "tags" -> "#+filetags: :" \o CatS([i \in 1..Len(b.ts) |-> b.ts[i] \o ":"]) \o b.nl
    [] b.k = "name" -> "#+name: " \o b.a \o b.nl
    [] b.k = "attr" -> "#+attr_" \o b.w \o ":" \o Args(b.args) \o b.nl
    [] b.k = "head" -> HeadText(b)
DocText(bs) == CatS([i \in 1..Len(bs) |-> BlockText(bs[i])])

Nl(b) == Leaf("Newline", b.nl)
\* Lines of the document head with a meaning of their own; the rest are kept by name.
KnownLine == ("email" :> "CmdEmail") @@ ("startup" :> "CmdStartup") @@ ("language" :> "CmdLanguage") @@ ("author" :> "CmdAuthor") @@ ("creator" :> "CmdCreator")
RECURSIVE BlockTree(_), Forest(_, _, _)
BlockTree(b) ==
  CASE b.k = "para" -> ParaNl(LinesTree(b.ls), b.nl)
    [] b.k = "list" -> ListTree(b.its)
    [] b.k = "src" -> Nt("BlockCode", Leaf("Word", b.lang) \o Nt("Attrs", Nt("InlineStmtList", <<>>) \o ArgsTree(b.args))
                         \o Nt("StmtList", Cat([i \in 1..Len(b.ls) |-> Nt("CodeLine", CodeTree(b.ls[i]))])) \o None) \o Nl(b)
    [] b.k = "example" -> Nt("BlockExample", Nt("InlineStmtList", <<>>) \o Cat([i \in 1..Len(b.ls) |-> (IF i = 1 THEN <<>> ELSE Leaf("RawText", "\n")) \o Leaf("RawText", b.ls[i])])) \o Nl(b)
    [] b.k = "wrap" -> Nt(WrapKind(b.w), None \o Forest(b.in, 1, 0).t) \o Nl(b)
    [] b.k = "table" -> Nt("Table", None \o Cat([i \in 1..Len(b.rows) |-> Row(b.rows[i])]))
    [] b.k = "lit" -> Nt("ColonExample", Cat([i \in 1..Len(b.ls) |-> Leaf("RawText", b.ls[i])])) \o (IF b.nl = "\n" THEN <<>> ELSE Nl(b))
    [] b.k = "rule" -> Leaf("TextSeparator", "-----") \o Nl(b)
    [] b.k = "title" -> Nt("CmdTitle", Nt("Attrs", Para(b.in)))
    [] b.k = "remark" -> Nl(b)
    [] b.k = "line" -> IF b.w \in DOMAIN KnownLine THEN Nt(KnownLine[b.w], Leaf("RawText", " " \o b.a)) ELSE Nt("CmdCustomRawCommand", Leaf("RawText", b.w \o ":") \o Leaf("RawText", " " \o b.a))
    [] b.k = "says" -> IF b.w \in DOMAIN KnownLine THEN Nt(KnownLine[b.w], Nt("Attrs", Para(b.in))) ELSE Nt("CmdCustomTextCommand", Leaf("RawText", b.w \o ":") \o Nt("Attrs", Para(b.in)))
    [] b.k = "tags" -> Nt("CmdFiletags", Cat([i \in 1..Len(b.ts) |-> Nt("HashTag", Leaf("RawText", b.ts[i]))]))
    [] b.k = "name" -> Nt("CmdName", Nt("InlineStmtList", Nt("AttrValue", None \o None \o Leaf("RawText", b.a) \o None)))
    [] b.k = "attr" -> Nt("CmdAttr", Leaf("Word", b.w) \o ArgsTree(b.args))
\* Blocks from `from` on that lie inside a subtree of level `lvl`: a deeper subtree
\* holds everything up to the next one that is not deeper than itself.
Forest(bs, from, lvl) ==
  IF from > Len(bs) \/ (bs[from].k = "head" /\ bs[from].lvl <= lvl) THEN [t |-> <<>>, n |-> from]
  ELSE IF bs[from].k = "head"
       THEN LET body == Forest(bs, from + 1, bs[from].lvl) rest == Forest(bs, body.n, lvl)
            IN [t |-> Nt("Subtree", HeadTree(bs[from]) \o Nt("StmtList", body.t)) \o rest.t, n |-> rest.n]
       ELSE LET rest == Forest(bs, from + 1, lvl) IN [t |-> BlockTree(bs[from]) \o rest.t, n |-> rest.n]
DocTree(bs) == Nt("StmtList", Forest(bs, 1, 0).t)

-------------------------------------------------------------------------------
\* Neighbours that org syntax itself joins.
Joins(a, b) ==
  \/ a.k = "para" /\ b.k \in {"para", "lit", "rule", "remark"} /\ a.nl = "\n"
  \/ a.k = "list" /\ b.k = "list"
  \/ a.k = "table" /\ b.k = "table"
  \/ a.k = "lit" /\ b.k = "lit"
Proper(bs) == \A i \in 1..(Len(bs) - 1) : ~Joins(bs[i], bs[i + 1])

\* What any parse tree must look like, whatever the document.
Nested(ns) == \A i \in 1..Len(ns) : \A j \in (i + 1)..(i + ns[i].x) : j + ns[j].x <= i + ns[i].x
OneRoot(ns) == Len(ns) > 0 /\ ns[1].x = Len(ns) - 1
Shaped(ns) == OneRoot(ns) /\ Nested(ns)
===============================================================================
