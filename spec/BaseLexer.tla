------------------------------- MODULE BaseLexer -------------------------------
\* The base tokenizer of org text, as a machine that reads one text from left to
\* right.  A machine state s holds the place of the next character (s.p), its line
\* and column and the tokens written so far; every operator below that returns a
\* machine state reads some characters and writes the token(s) for exactly them.
\* Texts are sequences of bytes.  Property O01.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {SubSeq(Ascii, k, k) : k \in 1..Len(Ascii)} |-> 31 + CHOOSE k \in 1..Len(Ascii) : SubSeq(Ascii, k, k) = c]
B(str) == [k \in 1..Len(str) |-> Code[SubSeq(str, k, k)]]
Upper == 65..90
Lowers == 97..122
Alpha == Upper \cup Lowers
Digit == 48..57
Alnum == Alpha \cup Digit
Ident == Alnum \cup {95}            \* identifier characters of the tokenizer
OIdent == Alnum \cup {95, 45}       \* ... and of property names
All == 0..255
NL == 10
NotNL == All \ {10}
ArgStop == {40, 41, 93, 91, 61, 44, 32, 10}
NotArgStop == All \ ArgStop
Low(c) == IF c \in Upper THEN c + 32 ELSE c

At(t, p) == IF p \in 1..Len(t) THEN t[p] ELSE -1
RECURSIVE Run(_, _, _)
Run(t, p, S) == IF At(t, p) \in S THEN Run(t, p + 1, S) ELSE p        \* first place not in S
Is(t, p, w) == \A k \in 1..Len(w) : At(t, p + k - 1) = w[k]
IIs(t, p, w) == \A k \in 1..Len(w) : Low(At(t, p + k - 1)) = Low(w[k])
Normal(w) == LET q == SelectSeq(w, LAMBDA c : c \in Alnum) IN [k \in 1..Len(q) |-> Low(q[k])]
Starts(w, pre) == Len(w) >= Len(pre) /\ SubSeq(w, 1, Len(pre)) = pre

\* ---- moving and writing -------------------------------------------------------
Start == [p |-> 1, line |-> 0, col |-> 0, out |-> <<>>]
Lines(t, p, q) == Cardinality({k \in p..(q - 1) : t[k] = NL})
Move(t, s, q) ==
  LET e == IF q > Len(t) + 1 THEN Len(t) + 1 ELSE q
      n == Lines(t, s.p, e)
  IN [s EXCEPT !.p = e, !.line = @ + n,
        !.col = IF n = 0 THEN @ + (e - s.p) ELSE (CHOOSE k \in 0..(e - s.p - 1) : t[e - 1 - k] = NL /\ \A j \in (e - k)..(e - 1) : t[j] # NL)]
Put(s, k, txt, from) == [s EXCEPT !.out = Append(@, [k |-> k, t |-> txt, l |-> <<from.p - 1, from.line, from.col>>])]
\* a token of kind k for everything up to (not including) place q
To(t, s, k, q) == LET m == Move(t, s, q) IN Put(m, k, SubSeq(t, s.p, m.p - 1), s)
Adv(t, s, k, n) == To(t, s, k, s.p + n)
One(t, s, k) == Adv(t, s, k, 1)

\* ---- places reached by the word-like scanners ---------------------------------
RECURSIVE Dashes(_, _)
Dashes(t, p) == IF At(t, p) \in {45, 95} /\ At(t, p + 1) \in Alnum THEN Dashes(t, Run(t, p + 1, Alnum)) ELSE p
WordEnd(t, p) == LET a == Dashes(t, Run(t, p, Alnum)) IN Run(t, IF At(t, a) = 39 THEN a + 1 ELSE a, Alnum)
IdentEnd(t, p) == Run(t, p, Ident)
EolFrom(t, p) == Run(t, p, NotNL)

\* ---- arguments of a command line ----------------------------------------------
RECURSIVE Quoted(_, _)
Quoted(t, p) == CASE At(t, p) \in {-1, 10, 34} -> p
                  [] At(t, p) = 92 /\ At(t, p + 1) = 34 -> Quoted(t, p + 2)
                  [] OTHER -> Quoted(t, p + 1)
CmdArg(t, s) ==
  LET c == At(t, s.p) IN
  CASE c = 40 -> One(t, s, "ParBegin") [] c = 41 -> One(t, s, "ParEnd") [] c = 93 -> One(t, s, "BraceEnd")
    [] c = 61 -> One(t, s, "Equals") [] c = 44 -> One(t, s, "Comma") [] c = 91 -> One(t, s, "BraceBegin")
    [] c = 32 -> To(t, s, "Whitespace", Run(t, s.p, {32}))
    [] c = 34 -> LET q == Quoted(t, s.p + 1) IN To(t, s, "CmdRawArg", IF At(t, q) = 34 THEN q + 1 ELSE q)
    [] c = 58 /\ At(t, s.p + 1) \in Alnum -> To(t, s, "CmdColonIdent", Run(t, s.p + 1, OIdent))
    [] c = 58 -> To(t, s, "CmdRawArg", Run(t, s.p + 1, NotArgStop))
    [] OTHER -> To(t, s, "CmdRawArg", Run(t, s.p, NotArgStop))
RECURSIVE CmdArgs(_, _)
CmdArgs(t, s) == IF At(t, s.p) \in {-1, NL} THEN s ELSE CmdArgs(t, CmdArg(t, s))

\* ---- time repeaters -------------------------------------------------------------
RepeatSign(t, p) == IF Is(t, p, <<46, 43>>) \/ Is(t, p, <<43, 43>>) THEN p + 2 ELSE IF At(t, p) = 43 THEN p + 1 ELSE 0
RECURSIVE Durations(_, _)
Durations(t, p) == LET q == Run(t, p, Digit) IN IF q = p \/ At(t, q) \notin Alpha THEN FALSE ELSE IF At(t, q + 1) \in Digit THEN Durations(t, q + 1) ELSE TRUE
IsRepeater(t, p) == LET q == RepeatSign(t, p) IN q # 0 /\ Durations(t, q)
RECURSIVE DurationEnd(_, _)
DurationEnd(t, p) == IF At(t, p) \in Digit THEN DurationEnd(t, IdentEnd(t, Run(t, p, Digit \cup {95}))) ELSE p
Repeater(t, s) ==
  LET a == To(t, s, "TimeRepeaterSpec", Run(t, IF At(t, s.p) = 46 THEN s.p + 1 ELSE s.p, {43}))
  IN To(t, a, "TimeRepeaterDuration", DurationEnd(t, a.p))

\* ---- links ----------------------------------------------------------------------
RECURSIVE LinkEnd(_, _)
LinkEnd(t, p) == IF p > Len(t) THEN 0 ELSE IF t[p] = 93 /\ At(t, p + 1) \in {93, 91} THEN p ELSE LinkEnd(t, p + 1)
ToLinkEnd(t, s, k) == LET q == LinkEnd(t, s.p) IN To(t, s, k, IF q = 0 THEN s.p ELSE q)
Named(t, s) == LET q == Run(t, s.p, All \ {93, 58, 10}) IN IF At(t, q) = 58 THEN To(t, s, "LinkProtocol", q + 1) ELSE To(t, s, "LinkProtocolInternal", q)
kHttp == B("http")
kFile == B("file")
kAttach == B("attachment")
kId == B("id")
Http(t, s) ==
  LET a == To(t, s, "LinkProtocolHttp", IF At(t, s.p + 4) \in {115, 83} THEN s.p + 5 ELSE s.p + 4)
  IN To(t, a, "LinkTarget", Run(t, a.p, All \ {32, 93, 10}))
LinkBody(t, s) ==
  CASE IIs(t, s.p, kHttp) -> Http(t, s)
    [] IIs(t, s.p, kFile) -> ToLinkEnd(t, Adv(t, s, "LinkProtocolFile", 4), "LinkTarget")
    [] IIs(t, s.p, kAttach) -> ToLinkEnd(t, To(t, s, "LinkProtocolAttachment", IdentEnd(t, s.p)), "LinkTarget")
    [] IIs(t, s.p, kId) -> ToLinkEnd(t, To(t, s, "LinkProtocolId", IdentEnd(t, s.p)), "LinkTarget")
    [] OTHER -> Named(t, s)
LinkPlain(t, s) ==
  LET c == At(t, s.p) IN
  CASE c = 42 -> ToLinkEnd(t, s, "LinkProtocolTitle")
    [] c = 35 -> ToLinkEnd(t, One(t, s, "LinkProtocolCustomId"), "LinkTarget")
    [] c \in {47, 46} -> ToLinkEnd(t, s, "LinkTargetFile")
    [] OTHER -> Named(t, s)
LinkFirst == Ident \cup {45, 42, 35, 46, 47}

\* ---- words ----------------------------------------------------------------------
kScheduled == B("SCHEDULED:")
kDeadline == B("DEADLINE:")
kClosed == B("CLOSED:")
kSrc == B("src")
RECURSIVE BodyEnd(_, _, _)
BodyEnd(t, p, open) ==
  CASE At(t, p) = -1 -> p
    [] At(t, p) = 123 -> BodyEnd(t, p + 1, open + 1)
    [] At(t, p) = 125 -> IF open = 1 THEN p ELSE BodyEnd(t, p + 1, open - 1)
    [] At(t, p) = 92 /\ At(t, p + 1) \in {123, 125} -> BodyEnd(t, p + 2, open)
    [] OTHER -> BodyEnd(t, p + 1, open)
SrcName(t, p) ==                                       \* end of an inline source head, 0 when there is none
  IF ~(IIs(t, p, kSrc) /\ At(t, p + 3) = 95) THEN 0
  ELSE LET q == Run(t, p + 4, Ident) IN IF q = p + 4 \/ At(t, q) # 123 THEN 0 ELSE q
Word(t, s) ==
  LET c == At(t, s.p) IN
  CASE c \in {104, 72} /\ IIs(t, s.p, kHttp) -> Http(t, s)
    [] c \in {115, 83} /\ Is(t, s.p, kScheduled) -> Adv(t, s, "TreeTime", 10)
    [] c \in {115, 83} /\ SrcName(t, s.p) # 0 ->
         LET a == To(t, s, "TextSrcBegin", SrcName(t, s.p))
             b == One(t, a, "CurlyBegin")
             d == To(t, b, "RawText", BodyEnd(t, b.p, 1))
         IN One(t, d, "CurlyEnd")
    [] c = 68 /\ Is(t, s.p, kDeadline) -> Adv(t, s, "TreeTime", 9)
    [] c = 67 /\ Is(t, s.p, kClosed) -> Adv(t, s, "TreeTime", 7)
    [] OTHER -> To(t, s, "Word", WordEnd(t, s.p))

\* ---- numbers, times and dates -----------------------------------------------------
Digits(t, p, n) == \A k \in 0..(n - 1) : At(t, p + k) \in Digit
IsDate(t, p) == Digits(t, p, 4) /\ At(t, p + 4) = 45 /\ Digits(t, p + 5, 2) /\ At(t, p + 7) = 45 /\ Digits(t, p + 8, 2)
kAm == B("am")
kPm == B("pm")
AmPm(t, p) == IF IIs(t, p, kAm) \/ IIs(t, p, kPm) THEN p + 2 ELSE p
kMaxInt == B("2147483647")
Fits(w) ==                                             \* the digits w fit a 32 bit integer
  LET z == IF \E k \in 1..Len(w) : w[k] # 48 THEN CHOOSE k \in 1..Len(w) : w[k] # 48 /\ \A j \in 1..(k - 1) : w[j] = 48 ELSE Len(w)
      v == SubSeq(w, z, Len(w))
  IN Len(v) < 10 \/ (Len(v) = 10 /\ (v = kMaxInt \/ \E k \in 1..10 : v[k] < kMaxInt[k] /\ \A j \in 1..(k - 1) : v[j] = kMaxInt[j]))
RECURSIVE Groups(_, _)
Groups(t, p) == IF At(t, p) # 95 THEN p ELSE LET q == Run(t, p + 1, Digit) IN IF q = p + 1 THEN 0 ELSE Groups(t, q)
Number(t, s) ==
  LET p == s.p
      d == Run(t, p, Digit)
      int == Fits(SubSeq(t, p, d - 1))
      u == IF At(t, d) = 95 THEN d + 1 ELSE d
      a == Run(t, u, Alpha)
      g == Groups(t, d)
  IN CASE Digits(t, p, 2) /\ At(t, p + 2) = 58 /\ Digits(t, p + 3, 2) /\ At(t, p + 5) = 58 /\ Digits(t, p + 6, 2) -> To(t, s, "Time", AmPm(t, p + 8))
       [] At(t, d) = 58 /\ Digits(t, d + 1, 2) -> To(t, s, "Time", AmPm(t, d + 3))
       [] IsDate(t, p) -> Adv(t, s, "Date", 10)
       [] int /\ a > u -> To(t, s, "Word", a)
       [] int /\ g > d -> To(t, s, "Word", g)
       [] OTHER -> To(t, s, "Number", d)

\* ---- characters outside of ASCII: skipped as whole characters ------------------------
Wide(c) == c >= 240
Size(c) == IF c >= 240 THEN 4 ELSE IF c >= 224 THEN 3 ELSE IF c >= 192 THEN 2 ELSE 1
Step(t, s) == LET q == s.p + Size(t[s.p]) IN [s EXCEPT !.p = IF q > Len(t) + 1 THEN Len(t) + 1 ELSE q, !.col = @ + 1]
RECURSIVE Wides(_, _)
Wides(t, s) == IF Wide(At(t, s.p)) THEN Wides(t, Step(t, s)) ELSE s
Other(t, s) == LET m == IF Wide(At(t, s.p)) THEN Wides(t, s) ELSE Step(t, s)
               IN Put(m, IF Wide(At(t, s.p)) THEN "Word" ELSE "AnyPunct", SubSeq(t, s.p, m.p - 1), s)

\* ---- line breaks: blank lines belong to the break, indentation of the next line does not ----
RECURSIVE Breaks(_, _, _)
Breaks(t, p, n) == LET q == Run(t, p + 1, {32}) IN IF At(t, q) = NL THEN Breaks(t, q, n + 1) ELSE <<p + 1, n + 1>>
Newlines(t, s) == LET b == Breaks(t, s.p, 0) IN To(t, s, IF b[2] = 1 THEN "Newline" ELSE IF b[2] = 2 THEN "MediumNewline" ELSE "LongNewline", b[1])

\* ---- verbatim text between tildes ----------------------------------------------------
RECURSIVE Blank(_, _, _)
Blank(t, p, n) == LET q == Run(t, p + 1, {32}) IN IF At(t, q) = NL THEN Blank(t, q, n + 1) ELSE <<q, n + 1>>
RECURSIVE TildaEnd(_, _)
TildaEnd(t, p) ==
  IF p + 1 > Len(t) THEN p
  ELSE IF t[p] = 126 /\ t[p + 1] \notin Alnum THEN p
  ELSE IF t[p] = NL THEN LET b == Blank(t, p, 0) IN IF b[2] = 1 THEN TildaEnd(t, b[1]) ELSE p
  ELSE TildaEnd(t, p + 1)
Tilda(t, s) ==
  CASE Is(t, s.p, <<126, 126, 125>>) -> Adv(t, s, "CriticReplaceEnd", 3)
    [] Is(t, s.p, <<126, 62>>) -> Adv(t, s, "CriticReplaceMiddle", 2)
    [] s.p > 1 /\ At(t, s.p - 1) = 32 ->
         LET a == One(t, s, "Tilda")
             q == TildaEnd(t, a.p)
         IN IF At(t, q) = 126 THEN One(t, To(t, a, "RawText", q), "Tilda") ELSE a
    [] OTHER -> One(t, s, "Tilda")

\* ---- things that open with a square bracket ---------------------------------------------
kFn == B("[fn:")
kFnn == B("[fn::")
Bracket(t, s) ==
  LET p == s.p
      d == Run(t, p + 1, Digit)
      e == Run(t, d + 1, Digit)
      f == Run(t, p + 4, OIdent)
      g == Run(t, p + 2, OIdent)
  IN CASE d > p + 1 /\ At(t, d) = 37 /\ At(t, d + 1) = 93 -> To(t, s, "SubtreeCompletion", d + 2)
       [] d > p + 1 /\ At(t, d) = 47 /\ e > d + 1 /\ At(t, e) = 93 -> To(t, s, "SubtreeCompletion", e + 1)
       [] Is(t, p, <<91, 37, 37>>) -> Adv(t, s, "InactiveDynamicTimeContent", 3)
       [] At(t, p + 1) = 35 /\ At(t, p + 2) \in Alpha \cup {95} /\ At(t, p + 3) = 93 -> Adv(t, s, "SubtreePriority", 4)
       [] At(t, p + 1) \in {120, 88, 32, 45} /\ At(t, p + 2) = 93 -> Adv(t, s, "Checkbox", 3)
       [] IIs(t, p, kFn) /\ At(t, p + 4) # 58 /\ f > p + 4 /\ At(t, f) = 93 -> To(t, s, "FootnoteLinked", f + 1)
       [] IIs(t, p, kFnn) -> Adv(t, s, "FootnoteInlineBegin", 5)
       [] At(t, p + 1) = 91 /\ g > p + 2 /\ At(t, g) = 58 -> LinkBody(t, Adv(t, s, "LinkBegin", 2))
       [] At(t, p + 1) = 91 /\ At(t, p + 2) \in LinkFirst /\ LinkEnd(t, p + 3) # 0 -> LinkPlain(t, Adv(t, s, "LinkBegin", 2))
       [] OTHER -> One(t, s, "BraceBegin")

\* ---- at-signs -------------------------------------------------------------------------
RECURSIVE TwoAt(_, _)
TwoAt(t, p) == IF p > Len(t) THEN 0 ELSE IF Is(t, p, <<64, 64>>) THEN p ELSE TwoAt(t, p + 1)
AtSign(t, s) ==
  LET w == Run(t, s.p + 2, Ident) IN
  CASE At(t, s.p + 1) \in Alpha -> To(t, s, "At", WordEnd(t, s.p + 1))
    [] At(t, s.p + 1) = 64 /\ w > s.p + 2 /\ At(t, w) = 58 /\ TwoAt(t, w + 1) # 0 ->
         To(t, To(t, s, "InlineExportBackend", w), "InlineExportContent", TwoAt(t, w + 1) + 2)
    [] OTHER -> One(t, s, "Punctuation")

\* ---- one token inside of a line ---------------------------------------------------------
Singles == (40 :> "ParBegin") @@ (41 :> "ParEnd") @@ (37 :> "Percent") @@ (39 :> "SingleQuote") @@ (34 :> "DoubleQuote") @@ (95 :> "Underline")
        @@ (59 :> "Semicolon") @@ (44 :> "Comma") @@ (94 :> "Circumflex") @@ (96 :> "Backtick") @@ (36 :> "Dollar") @@ (33 :> "Exclamation")
        @@ (38 :> "Ampersand") @@ (47 :> "ForwardSlash") @@ (125 :> "CurlyEnd")
Critics == (43 :> "CriticAddBegin") @@ (45 :> "CriticDeleteBegin") @@ (61 :> "CriticHighlightBegin") @@ (126 :> "CriticReplaceBegin") @@ (62 :> "CriticCommentBegin")
Inner(t, s) ==
  LET p == s.p
      c == At(t, p)
      n == At(t, p + 1)
      o == At(t, p + 2)
  IN CASE c = 42 -> LET q == Run(t, p, {42}) IN IF s.col = 0 /\ At(t, q) = 32 THEN To(t, s, "SubtreeStars", q) ELSE One(t, s, "Asterisk")
       [] c = 43 -> IF n = 43 /\ o = 125 THEN Adv(t, s, "CriticAddEnd", 3) ELSE IF IsRepeater(t, p) THEN Repeater(t, s) ELSE One(t, s, "Plus")
       [] c \in DOMAIN Singles -> One(t, s, Singles[c])
       [] c = 124 -> One(t, s, IF n \in {-1, NL} THEN "TrailingPipe" ELSE "Pipe")
       [] c = 93 -> IF n = 93 THEN Adv(t, s, "LinkEnd", 2) ELSE IF n = 91 THEN Adv(t, s, "LinkSplit", 2) ELSE One(t, s, "BraceEnd")
       [] c = 92 -> IF n \in Alpha THEN To(t, s, "Symbol", WordEnd(t, p + 1)) ELSE IF n = 92 THEN Adv(t, s, "DoubleSlash", 2) ELSE Adv(t, s, "Escaped", 2)
       [] c = 91 -> Bracket(t, s)
       [] c = 58 -> IF n = 58 THEN Adv(t, s, "DoubleColon", 2) ELSE One(t, s, "Colon")
       [] c = 62 -> IF n = 62 /\ o = 62 THEN Adv(t, s, "TripleAngleEnd", 3) ELSE IF n = 62 THEN Adv(t, s, "DoubleAngleEnd", 2) ELSE One(t, s, "AngleEnd")
       [] c = 46 -> IF IsRepeater(t, p) THEN Repeater(t, s) ELSE One(t, s, "Punctuation")
       [] c = 60 -> LET g == Run(t, p + 1, OIdent) IN
                    IF n = 60 /\ o = 60 THEN Adv(t, s, "TripleAngleBegin", 3)
                    ELSE IF n = 60 /\ o = 125 THEN Adv(t, s, "CriticCommentEnd", 3)
                    ELSE IF n = 60 THEN Adv(t, s, "DoubleAngleBegin", 2)
                    ELSE IF n = 37 /\ o = 37 THEN Adv(t, s, "ActiveDynamicTimeContent", 3)
                    ELSE IF IsDate(t, p + 1) THEN One(t, s, "AngleBegin")
                    ELSE IF g > p + 1 /\ At(t, g) = 62 THEN To(t, s, "Placeholder", g + 1)
                    ELSE One(t, s, "AngleBegin")
       [] c = 35 -> IF n = 35 THEN Adv(t, s, "DoubleHash", 2) ELSE IF n = 32 THEN To(t, s, "Comment", EolFrom(t, p))
                    ELSE IF n \in Alpha THEN To(t, s, "HashIdent", WordEnd(t, p + 1)) ELSE One(t, s, "Punctuation")
       [] c = 64 -> AtSign(t, s)
       [] c = 61 -> IF n = 61 /\ o = 125 THEN Adv(t, s, "CriticHighlightEnd", 3) ELSE IF n = 62 THEN Adv(t, s, "TimeArrow", 2) ELSE One(t, s, "Equals")
       [] c = 126 -> Tilda(t, s)
       [] c = 45 -> LET d == Run(t, p + 1, Digit) IN
                    IF Is(t, p, <<45, 45, 45, 45, 45>>) THEN To(t, s, "TextSeparator", Run(t, p, {45}))
                    ELSE IF n = 45 /\ o = 125 THEN Adv(t, s, "CriticDeleteEnd", 3)
                    ELSE IF n = 45 THEN Adv(t, s, "DoubleDash", 2)
                    ELSE IF d > p + 1 /\ At(t, d) \in Alpha THEN To(t, s, "TimeWarnPeriod", Run(t, d, Alpha))
                    ELSE One(t, s, "Minus")
       [] c = 123 -> IF n = o /\ n \in DOMAIN Critics THEN Adv(t, s, Critics[n], 3) ELSE One(t, s, "CurlyBegin")
       [] c = NL -> Newlines(t, s)
       [] c = 32 -> To(t, s, "Whitespace", Run(t, p, {32}))
       [] c \in Alpha -> Word(t, s)
       [] c \in Digit -> Number(t, s)
       [] OTHER -> Other(t, s)

\* ---- commands -------------------------------------------------------------------------
Raw(k) == <<k, "raw">>
Txt(k) == <<k, "text">>
Arg(k) == <<k, "args">>
Commands ==
  (B("columns") :> Raw("CmdColumns")) @@ (B("tblfm") :> Raw("CmdTblfm")) @@ (B("options") :> Raw("CmdOptions")) @@ (B("tags") :> Raw("CmdTagsRaw"))
  @@ (B("drawers") :> Raw("CmdDrawersRaw")) @@ (B("category") :> Raw("CmdCategoryRaw")) @@ (B("priorities") :> Raw("CmdPrioritiesRaw"))
  @@ (B("htmlhead") :> Raw("CmdHtmlHeadRaw")) @@ (B("latexheaderextra") :> Raw("CmdLatexHeaderExtraRaw")) @@ (B("title") :> Txt("CmdTitle"))
  @@ (B("author") :> Txt("CmdAuthor")) @@ (B("filetags") :> Txt("CmdFiletags")) @@ (B("caption") :> Txt("CmdCaption")) @@ (B("date") :> Txt("CmdDateRaw"))
  @@ (B("link") :> Raw("CmdLinkRaw")) @@ (B("description") :> Txt("CmdDescription")) @@ (B("language") :> Raw("CmdLanguage")) @@ (B("creator") :> Txt("CmdCreator"))
  @@ (B("name") :> Arg("CmdName")) @@ (B("email") :> Raw("CmdEmailRaw")) @@ (B("macro") :> Raw("CmdMacroRaw")) @@ (B("bind") :> Raw("CmdBindRaw"))
  @@ (B("excludetags") :> Raw("CmdExcludeTagsRaw")) @@ (B("selecttags") :> Raw("CmdSelectTagsRaw")) @@ (B("keywords") :> Raw("CmdKeywordsRaw"))
  @@ (B("setupfile") :> Raw("CmdSetupfileRaw")) @@ (B("startup") :> Raw("CmdStartup")) @@ (B("seqtodo") :> Raw("CmdSeqTodoRaw"))
  @@ (B("constants") :> Arg("CmdConstants")) @@ (B("results") :> Arg("CmdResults")) @@ (B("include") :> Arg("CmdInclude")) @@ (B("header") :> Arg("CmdHeader"))
  @@ (B("call") :> Arg("CmdCall")) @@ (B("row") :> Arg("CmdRow")) @@ (B("cell") :> Arg("CmdCell"))
Blocks ==
  (B("quote") :> <<"CmdQuoteBegin", "CmdQuoteEnd">>) @@ (B("cell") :> <<"CmdCellBegin", "CmdCellEnd">>) @@ (B("center") :> <<"CmdCenterBegin", "CmdCenterEnd">>)
  @@ (B("verse") :> <<"CmdVerseBegin", "CmdVerseEnd">>) @@ (B("comment") :> <<"CmdCommentBegin", "CmdCommentEnd">>) @@ (B("row") :> <<"CmdRowBegin", "CmdRowEnd">>)
  @@ (B("table") :> <<"CmdTableBegin", "CmdTableEnd">>)
kAttr == B("attr")
kBegin == B("begin")
kEnd == B("end")
kProperty == B("property")
kExport == B("export")
kExample == B("example")
TextProps == {B("description"), B("created"), B("hashtag"), B("hashtagdef")}
ArgProps == {B("headerargs"), B("propargs")}
\* end of a closing line `#+end_<name>` at place p, 0 when there is none
BlockEnd(t, p, name) ==
  LET a == Run(t, p, {32})
      u == IF At(t, a + 5) = 95 THEN a + 6 ELSE a + 5
  IN IF At(t, a) = 35 /\ At(t, a + 1) = 43 /\ IIs(t, a + 2, kEnd) /\ IIs(t, u, name) THEN u + Len(name) ELSE 0
Break(t, s) == IF At(t, s.p) = NL THEN One(t, s, "Newline") ELSE s
RECURSIVE Body(_, _, _, _, _)
Body(t, s, name, line, close) ==
  IF s.p > Len(t) THEN To(t, s, close, s.p)
  ELSE IF BlockEnd(t, s.p, name) # 0 THEN To(t, s, close, BlockEnd(t, s.p, name))
  ELSE Body(t, Break(t, To(t, s, line, EolFrom(t, s.p))), name, line, close)
RECURSIVE SrcStop(_, _)
SrcStop(t, p) == IF At(t, p) \in {-1, NL} \/ Is(t, p, <<60, 60>>) \/ Is(t, p, <<62, 62>>) THEN p ELSE SrcStop(t, p + 1)
RECURSIVE SrcBody(_, _)
SrcBody(t, s) ==
  IF s.p > Len(t) THEN To(t, s, "CmdSrcEnd", s.p)
  ELSE IF s.col = 0 /\ BlockEnd(t, s.p, kSrc) # 0 THEN To(t, s, "CmdSrcEnd", BlockEnd(t, s.p, kSrc))
  ELSE SrcBody(t, Break(t, IF Is(t, s.p, <<60, 60>>) THEN Adv(t, s, "DoubleAngleBegin", 2)
                           ELSE IF Is(t, s.p, <<62, 62>>) THEN Adv(t, s, "DoubleAngleEnd", 2)
                           ELSE To(t, s, "SrcContent", SrcStop(t, s.p))))
RECURSIVE Regular(_, _)
RECURSIVE ToEol(_, _)
ToEol(t, s) == IF At(t, s.p) \in {-1, NL} THEN s ELSE ToEol(t, Regular(t, s))
Command(t, s) ==
  LET a == Adv(t, s, "LineCommand", 2)
      i == IdentEnd(t, a.p)
      e == IF At(t, i) = 58 THEN i + 1 ELSE i
      n == Normal(SubSeq(t, a.p, e - 1))
      Name(k) == To(t, a, k, e)
      Args(k) == CmdArgs(t, Name(k))
      RawTo(k) == To(t, Name(k), "RawText", EolFrom(t, e))
      Text(k) == ToEol(t, Name(k))
      Open(k) == LET x == Args(k) IN One(t, x, "Newline")
      ws == Run(t, e, {32} \cup (9..13))
      wi == Run(t, ws, OIdent)
      prop == Normal(SubSeq(t, ws, wi - 1))
  IN CASE n \in DOMAIN Commands -> LET c == Commands[n] IN IF c[2] = "raw" THEN RawTo(c[1]) ELSE IF c[2] = "text" THEN Text(c[1]) ELSE Args(c[1])
       [] Starts(n, kAttr) -> Args("CmdAttr")
       [] Starts(n, kBegin) ->
            LET b == SubSeq(n, 6, Len(n)) IN
            CASE b \in DOMAIN Blocks -> Args(Blocks[b][1])
              [] b = kExport -> Body(t, Open("CmdExportBegin"), kExport, "CmdExportLine", "CmdExportEnd")
              [] b = kExample -> Body(t, Open("CmdExampleBegin"), kExample, "CmdExampleLine", "CmdExampleEnd")
              [] b = kSrc -> SrcBody(t, Open("CmdSrcBegin"))
              [] OTHER -> Args("CmdDynamicBlockBegin")
       [] Starts(n, kEnd) -> LET b == SubSeq(n, 4, Len(n)) IN Args(IF b \in DOMAIN Blocks THEN Blocks[b][2] ELSE "CmdDynamicBlockEnd")
       [] Starts(n, kProperty) ->
            IF wi = ws THEN RawTo("CmdCustomRaw") ELSE IF prop \in TextProps THEN Text("CmdPropertyText")
            ELSE IF prop \in ArgProps THEN Args("CmdPropertyArgs") ELSE RawTo("CmdCustomRaw")
       [] OTHER -> RawTo("CmdCustomRaw")

\* ---- the start of a line -----------------------------------------------------------------
RECURSIVE Cells(_, _, _)
Cells(t, p, n) == LET q == Run(t, p, {45}) IN IF q = p THEN <<p, n>> ELSE IF At(t, q) \in {43, 124} THEN Cells(t, q + 1, n + 1) ELSE <<q, n>>
kClock == B("clock:")
kColonEnd == B(":end:")
kProperties == B(":properties:")
kLogbook == B(":logbook:")
ArgNames == {B("header-args"), B("header_args"), B("prop_args"), B("prop-args")}
TextNames == {B("description"), B("created"), B("hashtag"), B("hashtag_def"), B("hashtag-def")}
\* end of `:name:` for one of the names, 0 when there is none
PropEnd(t, p, names) ==
  IF At(t, p) # 58 \/ ~\E w \in names : IIs(t, p + 1, w) THEN 0
  ELSE LET w == CHOOSE w \in names : IIs(t, p + 1, w) /\ \A v \in names : IIs(t, p + 1, v) => Len(v) <= Len(w)
       IN IF At(t, p + 1 + Len(w)) = 58 THEN p + 2 + Len(w) ELSE 0
SubName(t, p) == LET q == Run(t, p, OIdent) IN IF q > p /\ At(t, q) = 58 THEN q + 1 ELSE p
Regular(t, s) ==
  IF s.col # 0 THEN Inner(t, s)
  ELSE
  LET P == Run(t, s.p, {32})
      c == At(t, P)
      n == At(t, P + 1)
      Spaced == IF P > s.p THEN To(t, s, "LeadingSpace", P) ELSE s
      cells == Cells(t, IF c = 124 THEN P + 1 ELSE P, 0)
      d == Run(t, P, Digit)
      g == Run(t, P + 1, OIdent)
  IN CASE c = 45 /\ n \in {32, 10} -> To(t, s, "LeadingMinus", P + 1)
       [] c = 43 /\ n \in {32, 10} -> To(t, s, "LeadingPlus", P + 1)
       [] c = 124 /\ n \in {32, 10} -> To(t, s, "LeadingPipe", P + 1)
       [] cells[2] > 0 -> To(t, s, "TableSeparator", cells[1])
       [] IIs(t, P, kClock) -> ToEol(t, To(t, s, "TreeClock", P + 6))
       [] IIs(t, P, kColonEnd) -> To(t, s, "ColonEnd", P + 5)
       [] IIs(t, P, kProperties) -> To(t, s, "ColonProperties", P + 12)
       [] d > P /\ At(t, d) \in {46, 41} /\ At(t, d + 1) = 32 -> To(t, s, "LeadingNumber", d + 1)
       [] IIs(t, P, kLogbook) -> To(t, s, "ColonLogbook", P + 9)
       [] PropEnd(t, P, ArgNames) # 0 -> CmdArgs(t, To(t, s, "ColonArgumentsProperty", SubName(t, PropEnd(t, P, ArgNames))))
       [] PropEnd(t, P, TextNames) # 0 -> ToEol(t, To(t, s, "ColonPropertyText", SubName(t, PropEnd(t, P, TextNames))))
       [] c = 58 /\ g > P + 1 /\ At(t, g) = 58 -> LET a == To(t, s, "ColonLiteralProperty", SubName(t, g + 1)) IN To(t, a, "RawText", EolFrom(t, a.p))
       [] c = 58 /\ n \in {32, 10} -> To(t, Spaced, "ColonExampleLine", EolFrom(t, P + 1))
       [] c = 35 /\ n = 43 -> Command(t, Spaced)
       [] P > s.p -> Spaced
       [] OTHER -> Inner(t, s)
RECURSIVE Tokenize(_, _)
Tokenize(t, s) == IF s.p > Len(t) THEN s.out ELSE Tokenize(t, Regular(t, s))
Lex(t) == Tokenize(t, Start)

\* ---- what a user relies on -----------------------------------------------------------------
RECURSIVE Spelled(_, _)
Spelled(out, k) == IF k > Len(out) THEN <<>> ELSE out[k].t \o Spelled(out, k + 1)
Lossless(t) == Spelled(Lex(t), 1) = t
Placed(t) == LET out == Lex(t) IN \A k \in 1..Len(out) :
               /\ out[k].l[1] = IF k = 1 THEN 0 ELSE out[k - 1].l[1] + Len(out[k - 1].t)
               /\ out[k].l[2] = Lines(t, 1, out[k].l[1] + 1)
===============================================================================
