-------------------------------- MODULE OrgDocMC --------------------------------
\* Documents are built block by block (or, in one paragraph, element by element).
EXTENDS OrgDoc, Json
CONSTANTS MaxOps, EmitMode, Part
VARIABLES d, n
vars == <<d, n>>

W(a) == [k |-> "Word", a |-> a]
M(k, in) == [k |-> k, in |-> in]
St(act, date, day, time) == [k |-> "stamp", act |-> act, date |-> date, day |-> day, time |-> time, rep |-> <<>>, warn |-> <<>>]
Again == {[St(x, "2024-01-02", d1, t1) EXCEPT !.rep = r, !.warn = w] : x \in BOOLEAN, d1 \in {"", "Tue"}, t1 \in {"", "10:20"}, w \in {<<>>, <<"2", "d">>},
           r \in {<<<<m, "1", p>>>> : m \in {"+", "++", ".+"}, p \in {"h", "d", "w", "m", "y"}}}
Atoms == {W("a"), W("word"), W("12"), W("10:20"), [k |-> "BigIdent", a |-> "A_B"], [k |-> "BigIdent", a |-> "TODO"],
  [k |-> "Stop", a |-> "b", b |-> "."], [k |-> "Stop", a |-> "b", b |-> ","], [k |-> "Stop", a |-> "b", b |-> ":"],
  [k |-> "Monospace", a |-> "m"], M("Verbatim", <<W("v")>>), M("Verbatim", <<W("v"), W("w")>>),
  [k |-> "foot", a |-> "1"], [k |-> "tag", a |-> "t", sub |-> <<>>], [k |-> "tag", a |-> "t", sub |-> <<"x">>], [k |-> "tag", a |-> "t", sub |-> <<"x", "y">>],
  [k |-> "at", a |-> "user"], [k |-> "hole", a |-> "p"], St(TRUE, "2024-01-02", "", ""), St(FALSE, "2024-01-02", "Tue", "10:20"),
  [k |-> "range", from |-> St(TRUE, "2024-01-02", "Tue", ""), to |-> St(TRUE, "2024-01-03", "", "")],
  [k |-> "range", from |-> St(FALSE, "2024-01-02", "", "10:20"), to |-> St(FALSE, "2024-01-02", "", "11:30")],
  [k |-> "code", p |-> "c", a |-> "x"], [k |-> "raw", p |-> "html", a |-> "b"], [k |-> "symbol", a |-> "alpha", par |-> "", bod |-> <<>>], [k |-> "symbol", a |-> "al", par |-> "", bod |-> <<<<W("x")>>>>], [k |-> "symbol", a |-> "al", par |-> "k", bod |-> <<<<W("x"), W("y")>>, <<W("z")>>>>], [k |-> "escape", a |-> "{"],
  [k |-> "target", radio |-> FALSE, in |-> <<W("t"), W("u")>>], [k |-> "target", radio |-> TRUE, in |-> <<W("t")>>],
  [k |-> "url", p |-> "http", a |-> "://a.b"], [k |-> "link", p |-> "file", a |-> ":f", in |-> <<>>], [k |-> "link", p |-> "", a |-> "w", in |-> <<>>],
  [k |-> "link", p |-> "id", a |-> ":x", in |-> <<W("a"), W("b")>>], [k |-> "link", p |-> "#", a |-> "c", in |-> <<W("a")>>], [k |-> "link", p |-> "", a |-> "*t", in |-> <<>>],
  [k |-> "link", p |-> "attachment", a |-> ":q", in |-> <<W("a")>>], [k |-> "link", p |-> "", a |-> "./f", in |-> <<W("a")>>]}
Small == {W("a"), M("Verbatim", <<W("v")>>), [k |-> "tag", a |-> "t", sub |-> <<>>], St(TRUE, "2024-01-02", "", ""), [k |-> "link", p |-> "file", a |-> ":f", in |-> <<W("a")>>]}
Marks(es) == {M(k, in) : k \in Markup, in \in es}
Deep1 == Marks({<<W("a")>>, <<W("a"), W("b")>>, <<W("a"), [k |-> "tag", a |-> "t", sub |-> <<>>], W("b")>>})
Deep2 == {M("Bold", <<m>>) : m \in {M(k, <<W("a")>>) : k \in Markup \ {"Bold"}}} \cup {M("Italic", <<W("a"), m, W("b")>>) : m \in {M(k, <<W("a")>>) : k \in Markup \ {"Italic"}}}
         \cup {M("Bold", <<W("a"), M("Italic", <<W("b"), M("Underline", <<W("c")>>)>>)>>), M("Underline", <<M("Bold", <<W("a")>>), M("Italic", <<W("b")>>)>>)}
Crits == {M(k, in) : k \in Critics, in \in {<<W("a")>>, <<W("a"), W("b")>>}} \cup {[k |-> "swap", in |-> <<W("a")>>, to |-> <<W("b"), W("c")>>], M("note-in", <<W("a"), W("b")>>)}
Elems == Atoms \cup Deep1 \cup Deep2 \cup Crits
Some == Small \cup {M("Bold", <<W("a"), W("b")>>), M("Italic", <<M("Bold", <<W("a")>>), W("b")>>), [k |-> "swap", in |-> <<W("a")>>, to |-> <<W("b")>>]}

Nls == {"\n", "\n\n", "\n\n\n"}
Ins == {<<W("a")>>, <<W("a"), M("Bold", <<W("b"), W("c")>>)>>, <<M("Italic", <<W("i")>>), W("x")>>}
H(l, in, nl) == [k |-> "head", lvl |-> l, todo |-> "", prio |-> "", in |-> in, done |-> "", tags |-> <<>>, plan |-> <<>>, props |-> <<>>, nl |-> nl]
Heads(l) == {H(l, <<W("t")>>, nl) : nl \in Nls} \cup {[H(l, <<W("t"), M("Bold", <<W("b")>>)>>, "\n") EXCEPT !.todo = x, !.prio = p, !.tags = g, !.done = c] :
              x \in {"", "TODO"}, p \in {"", "A"}, g \in {<<>>, <<"x">>, <<"x", "y">>, <<"ARCHIVE">>, <<"x", "ARCHIVE">>}, c \in {"", "[1/2]", "[50%]"}}
            \cup {[H(l, <<[k |-> "BigIdent", a |-> "COMMENT"], W("t")>>, "\n") EXCEPT !.tags = g, !.done = c] : g \in {<<>>, <<"x">>, <<"x", "ARCHIVE">>}, c \in {"", "[1/2]"}}
            \cup {[H(l, <<W("t")>>, "\n") EXCEPT !.plan = q, !.props = r] : q \in {<<>>, <<<<"SCHEDULED", St(TRUE, "2024-01-02", "", "")>>>>, <<<<"DEADLINE", St(TRUE, "2024-01-02", "Tue", "10:20")>>, <<"CLOSED", St(FALSE, "2024-01-03", "", "")>>>>,
                      <<<<"SCHEDULED", [St(TRUE, "2024-01-02", "Tue", "") EXCEPT !.rep = <<<<".+", "1", "w">>>>, !.warn = <<"3", "d">>]>>>>},
                    r \in {<<>>, <<<<":id:", "1">>>>, <<<<":id:", "1">>, <<":created:", "[2024-01-02 Tue 10:20]">>>>, <<<<":custom_id:", "x y">>, <<":description:", "d">>, <<":id:", "2">>>>, <<<<":effort:", "1:30">>, <<":visibility:", "folded">>, <<":foo:", "b c">>>>}}
It(ind, bul, nl) == [ind |-> ind, bul |-> bul, box |-> "", tag |-> <<>>, in |-> <<W("a")>>, nl |-> nl, more |-> <<>>]
Lists == {[k |-> "list", its |-> its] : its \in
  {<<It(0, "-", nl)>> : nl \in Nls} \cup {<<It(0, "-", n1), It(0, "-", n2)>> : n1 \in {"\n", "\n\n"}, n2 \in Nls} \cup {<<It(0, "-", n1), It(2, b, n2)>> : n1 \in {"\n", "\n\n"}, n2 \in Nls, b \in {"-", "+"}}
  \cup {<<It(0, "-", "\n"), It(2, "-", n1), It(0, "-", "\n")>> : n1 \in {"\n", "\n\n"}} \cup {<<It(0, "-", "\n"), It(2, "-", n1), It(4, "-", "\n"), It(j, "-", "\n")>> : n1 \in {"\n", "\n\n"}, j \in {0, 2, 4}}
  \cup {<<It(0, "-", "\n"), It(2, "-", "\n"), It(4, "-", "\n"), It(6, "-", "\n"), It(j, "-", "\n"), It(i, "-", "\n")>> : i \in {0, 2}, j \in {0, 2, 4, 6}}
  \cup {<<It(0, "1.", "\n"), It(0, "2.", nl)>> : nl \in Nls} \cup {<<It(2, "-", "\n"), It(4, "-", "\n"), It(2, "-", "\n")>>}
  \cup {<<[It(0, "-", "\n") EXCEPT !.box = x, !.tag = g, !.in = in]>> : x \in {"", "[ ]", "[X]", "[-]"}, g \in {<<>>, <<W("x")>>, <<W("x"), W("y")>>}, in \in Ins}
  \cup {<<[It(0, "-", "\n") EXCEPT !.box = x, !.tag = <<W("x")>>], [It(2, "-", "\n") EXCEPT !.tag = g, !.box = y], It(i, "-", "\n")>> : x \in {"", "[X]"}, g \in {<<>>, <<W("y")>>}, y \in {"", "[ ]"}, i \in {0, 2, 4}}
  \cup {<<[It(0, "-", "\n\n") EXCEPT !.tag = g, !.more = <<[in |-> <<W("b"), M("Bold", <<W("c")>>)>>, nl |-> n1]>>], It(i, "-", n2)>> : g \in {<<>>, <<W("y")>>}, n1 \in {"\n", "\n\n"}, n2 \in Nls, i \in {0, 2}}
  \cup {<<It(0, "-", "\n"), [It(2, "-", "\n\n") EXCEPT !.more = <<[in |-> <<W("b")>>, nl |-> "\n\n"], [in |-> <<W("c")>>, nl |-> "\n"]>>], It(i, "-", "\n")>> : i \in {0, 2, 4}}}
P(ls, nl) == [k |-> "para", ls |-> ls, nl |-> nl]
Paras == {P(<<<<W("a")>>>>, nl) : nl \in Nls} \cup {P(<<x, y>>, nl) : x \in Ins, y \in Ins, nl \in Nls}
Srcs == {[k |-> "src", lang |-> "c", args |-> as, ls |-> ls, nl |-> nl] : as \in {<<>>, <<<<":x", "y">>>>, <<<<":x", "y">>, <<":z", "no">>>>, <<<<"", "foo">>>>, <<<<"", "foo">>, <<"", "bar">>, <<":x", "y">>>>}, ls \in {<<"x">>, <<"x", "y z">>, <<"* x", "- y">>, <<"x", "", "y">>, <<"  x", "    y", "">>}, nl \in Nls}
        \cup {[k |-> "src", lang |-> "c", args |-> <<>>, ls |-> ls, nl |-> "\n"] : ls \in {<<"a >> b">>, <<"a << b">>, <<"a <<r>> b">>, <<"a << b", "a >> b">>, <<"a <<r>> b", "x">>, <<"", "x">>, <<"  x", "", "    y">>}}
Examples == {[k |-> "example", ls |-> ls, nl |-> nl] : ls \in {<<"x">>, <<"x", "*y* z">>, <<"* x">>}, nl \in Nls}
Lits == {[k |-> "lit", ls |-> ls, nl |-> nl] : ls \in {<<"x">>, <<"x y", "*z*">>}, nl \in Nls}
Tables == {[k |-> "table", rows |-> rows, sep |-> s, nl |-> nl] : nl \in Nls, s \in BOOLEAN,
           rows \in {<<<<<<W("a")>>>>>>, <<<<<<W("a")>>, <<W("b"), W("c")>>>>>>, <<<<<<W("a")>>, <<W("b")>>>>, <<<<M("Bold", <<W("c")>>)>>, <<W("d")>>>>>>}}
Cmds == {[k |-> "title", in |-> in, nl |-> nl] : in \in Ins, nl \in Nls} \cup {[k |-> "tags", ts |-> ts, nl |-> "\n"] : ts \in {<<"a">>, <<"a", "b">>}} \cup {[k |-> "name", a |-> "q", nl |-> nl] : nl \in {"\n"}}
        \cup {[k |-> "attr", w |-> "html", args |-> as, nl |-> "\n"] : as \in {<<<<":w", "1">>>>, <<<<":w", "1">>, <<":h", "2">>>>, <<<<"", "foo">>, <<":w", "1">>>>}}
Lines1 == {[k |-> "line", w |-> w, a |-> a, nl |-> "\n"] : w \in {"email", "language", "tags", "category", "macro", "link", "setupfile", "foo", "foo_bar"}, a \in {"a", "a *b* c", "a: b"}}
          \cup {[k |-> "line", w |-> "startup", a |-> a, nl |-> "\n"] : a \in {"content", "overview", "showall", "show2levels"}}
          \cup {[k |-> "says", w |-> w, in |-> in, nl |-> "\n"] : w \in {"author", "creator", "date", "description"}, in \in Ins}
Misc == {[k |-> "rule", nl |-> nl] : nl \in Nls} \cup {[k |-> "remark", a |-> "note *x*", nl |-> nl] : nl \in Nls}
Inner == {<<P(<<<<W("q")>>>>, "\n")>>, <<P(<<<<W("q")>>>>, "\n\n"), P(<<<<W("r"), M("Bold", <<W("b")>>)>>>>, "\n")>>,
          <<[k |-> "list", its |-> <<It(0, "-", "\n"), It(2, "-", "\n")>>]>>, <<P(<<<<W("q")>>>>, "\n"), [k |-> "src", lang |-> "c", args |-> <<>>, ls |-> <<"x">>, nl |-> "\n"]>>}
Wraps == {[k |-> "wrap", w |-> w, in |-> in, nl |-> nl] : w \in {"quote", "center", "verse", "comment"}, in \in Inner, nl \in Nls}
         \cup {[k |-> "wrap", w |-> "quote", in |-> <<[k |-> "wrap", w |-> "center", in |-> in, nl |-> "\n"]>>, nl |-> "\n"] : in \in Inner}
Few == {P(<<<<W("a")>>>>, nl) : nl \in Nls} \cup {[k |-> "list", its |-> <<It(0, "-", "\n"), It(2, "-", nl)>>] : nl \in Nls} \cup {H(l, <<W("t")>>, "\n") : l \in 1..3}
       \cup {[k |-> "src", lang |-> "c", args |-> <<>>, ls |-> <<"x">>, nl |-> nl] : nl \in Nls} \cup {[k |-> "table", rows |-> <<<<<<W("a")>>>>>>, sep |-> FALSE, nl |-> "\n"]} \cup {[k |-> "rule", nl |-> "\n"], [k |-> "remark", a |-> "n", nl |-> "\n"]}
       \cup {[k |-> "wrap", w |-> "quote", in |-> <<P(<<<<W("q")>>>>, "\n")>>, nl |-> "\n"]} \cup {[k |-> "title", in |-> <<W("a")>>, nl |-> "\n"], [k |-> "lit", ls |-> <<"x">>, nl |-> "\n"]}
       \cup {[k |-> "line", w |-> "foo", a |-> "b", nl |-> "\n"], [k |-> "line", w |-> "startup", a |-> "content", nl |-> "\n"], [k |-> "says", w |-> "author", in |-> <<W("a")>>, nl |-> "\n"]}
HeadsOnly == {H(l, <<W("t")>>, "\n") : l \in 1..4} \cup {P(<<<<W("a")>>>>, "\n")}
Blocks == Heads(1) \cup Heads(2) \cup Heads(3) \cup Lists \cup Paras \cup Srcs \cup Examples \cup Lits \cup Tables \cup Cmds \cup Lines1 \cup Misc \cup Wraps

Op(x) == <<[op |-> "doc", d |-> x, s |-> DocText(x)]>>
Emit(x) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(Op(x))) ELSE TRUE
Init == n = 0 /\ d = IF Part = 1 THEN <<P(<<<<>>>>, "\n")>> ELSE <<>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ IF Part = 1 THEN \E e \in (IF n = 0 THEN Elems \cup (IF MaxOps = 3 THEN {} ELSE Again) ELSE IF n = 1 THEN Elems ELSE Some) : d' = <<P(<<Append(d[1].ls[1], e)>>, "\n")>>
           ELSE \E b \in (IF Part = 2 THEN (IF n = 0 THEN Blocks ELSE Few) ELSE IF Part = 3 THEN HeadsOnly ELSE IF Part = 4 THEN Few ELSE {RandomElement({x \in Blocks : IF d = <<>> THEN TRUE ELSE ~Joins(d[Len(d)], x)})}) : (IF d = <<>> THEN TRUE ELSE ~Joins(d[Len(d)], b)) /\ d' = Append(d, b)
        /\ Emit(d')
View == d
EmitInv == EmitMode # "depth" \/ n < MaxOps \/ PrintT("BEH|" \o ToJson(Op(d)))
\* Trees of the specification are trees, and nothing of the text is lost or invented.
WellFormed == (d # <<>> /\ (Part # 1 \/ n > 0)) => Proper(d) /\ Shaped(DocTree(d))
\* A subtree holds exactly the blocks up to the next subtree that is not deeper.
SubtreesNest == \A i \in 1..Len(d) : d[i].k = "head" =>
  LET k == Cardinality({j \in 1..i : d[j].k = "head"})
      tr == DocTree(d)
      at == CHOOSE j \in 1..Len(tr) : tr[j].k = "Subtree" /\ Cardinality({m \in 1..j : tr[m].k = "Subtree"}) = k
      stop == {j \in (i + 1)..Len(d) : d[j].k = "head" /\ d[j].lvl <= d[i].lvl}
      last == IF stop = {} THEN Len(d) ELSE (CHOOSE j \in stop : \A m \in stop : j <= m) - 1
  IN Cardinality({j \in (at + 1)..(at + tr[at].x) : tr[j].k = "Subtree"}) = Cardinality({j \in (i + 1)..last : d[j].k = "head"})
===============================================================================
