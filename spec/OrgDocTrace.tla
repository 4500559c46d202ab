------------------------------ MODULE OrgDocTrace ------------------------------
EXTENDS OrgDoc, Json, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))

\* Tokens whose text the tree must hold; the others are marks of the syntax itself.
Carries == {"Ampersand", "AnyPunct", "At", "Backtick", "BigIdent", "Checkbox", "Circumflex", "CmdAttr", "CmdColonIdent", "CmdRawArg", "CmdExampleLine", "CmdExportLine", "ColonArgumentsProperty",
  "ColonExampleLine", "ColonLiteralProperty", "ColonPropertyText", "CriticAddBegin", "CriticDeleteBegin", "CriticCommentBegin", "CriticHighlightBegin", "CriticReplaceBegin", "Date", "Dollar", "DoubleQuote",
  "DoubleSlash", "Escaped", "Exclamation", "FootnoteLinked", "HashIdent", "InlineExportBackend", "InlineExportContent", "LeadingMinus", "LeadingNumber", "LeadingPlus", "LinkProtocol", "LinkProtocolAttachment",
  "LinkProtocolCustomId", "LinkProtocolFile", "LinkProtocolHttp", "LinkProtocolId", "LinkProtocolInternal", "LinkProtocolTitle", "LinkTarget", "LinkTargetFile", "Minus", "Number", "Percent", "Placeholder",
  "Punctuation", "RawText", "Semicolon", "SingleQuote", "SrcContent", "SubtreeCompletion", "SubtreePriority", "SubtreeStars", "Symbol", "TextSeparator", "TextSrcBegin", "Time", "TimeRepeaterDuration",
  "TimeRepeaterSpec", "TimeWarnPeriod", "TreeClock", "TreeTime"}
\* The name of the day in a time stamp is not kept.
Day(toks, j) == (j > 1 /\ toks[j - 1].k = "Date") \/ (j > 2 /\ toks[j - 1].k = "Whitespace" /\ toks[j - 2].k = "Date")
Must(toks, j) == toks[j].k \in Carries \/ (toks[j].k = "Word" /\ ~Day(toks, j))
Leaves(ns) == SelectSeq(ns, LAMBDA nd : nd.t > 0)
InOrder(ls) == \A j \in 1..(Len(ls) - 1) : ls[j].t < ls[j + 1].t
Lost(toks, ls) == {j \in 1..Len(toks) : Must(toks, j)} \ {ls[j].t : j \in 1..Len(ls)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Differ(a, b) == IF \E k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k] THEN CHOOSE k \in 1..Len(a) : k <= Len(b) /\ a[k] # b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
                ELSE IF Len(a) < Len(b) THEN Len(a) + 1 ELSE Len(b) + 1
Same(tr, ns) == Len(tr) = Len(ns) /\ \A k \in 1..Len(tr) : tr[k] = ns[k]

TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE IF e.r.v = "err" THEN bad' = TRUE /\ Reject(<<"error", e.r.what>>)
     ELSE IF e.op = "doc" THEN
       LET tr == DocTree(e.d) IN
       IF e.s # DocText(e.d) THEN bad' = TRUE /\ Assert(FALSE, <<"text of the document", e.s, DocText(e.d)>>)
       ELSE IF e.r.v = "reported" THEN bad' = TRUE /\ Reject(<<"proper document is refused", e.s>>)
       ELSE /\ bad' = ~Same(tr, e.r.tree)
            /\ (bad' => Reject(<<"tree", Differ(tr, e.r.tree), SubSeq(tr, Differ(tr, e.r.tree), Differ(tr, e.r.tree)), e.s>>))
     ELSE IF e.r.v = "reported" THEN bad' = FALSE
     ELSE LET ls == Leaves(e.r.tree) lost == Lost(e.r.toks, ls) IN
       IF e.r.left THEN bad' = TRUE /\ Reject(<<"rest of the document is left">>)
       ELSE IF ~Shaped(e.r.tree) THEN bad' = TRUE /\ Reject(<<"shape">>)
       ELSE IF ~InOrder(ls) THEN bad' = TRUE /\ Reject(<<"order of tokens">>)
       ELSE /\ bad' = (lost # {})
            /\ (bad' => Reject(<<"lost", Least(lost), e.r.toks[Least(lost)]>>))
===============================================================================
