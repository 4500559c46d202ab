------------------------------ MODULE OrgTokensMC ------------------------------
\* Documents are put together line by line; every document reached is read by the
\* specification of the base tokenizer and then by that of the structural one.
EXTENDS OrgTokens
CONSTANTS MaxOps, EmitMode, Part
VARIABLES t, n
vars == <<t, n>>
Ind == {B(""), B("  "), B("    ")}
Item == {B("- a"), B("+ a"), B("1. a"), B("clock: x"), B("-")}
Plain == {B("a"), B("*b* c"), B("* t"), B(":x: y"), B(":end:"), B("|a|"), B("#+title: a"), B("#+attr_x: \"a b\""), B("#+property: description u")}
Block == {B("#+begin_src c"), B("#+end_src"), B("#+begin_example"), B("#+end_example"), B("#+begin_quote"), B("#+end_quote"), B("#+begin_export x"), B("#+end_export"), B("#+begin_z"), B("#+end_z")}
Texts1 == IF Part = 1 THEN {B("- a"), B("a"), B("#+begin_quote"), B("#+end_quote")} ELSE IF Part = 2 THEN {B("- a"), B("+ b"), B("a")}
          ELSE IF Part = 3 THEN {B("#+begin_src c"), B("#+end_src"), B("x"), B("<<y>>"), B("- a")} ELSE Item \cup Plain \cup Block
Ends == IF Part = 4 THEN {<<10>>, <<>>} ELSE IF Part = 2 THEN {<<10>>, <<10, 10, 10>>} ELSE {<<10>>}
Init == t = <<>> /\ n = 0
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E a \in Ind, x \in Texts1, e \in Ends : t' = t \o a \o x \o e /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(<<[op |-> "lex", t |-> t']>>)) ELSE TRUE)
View == t
EmitInv == EmitMode # "depth" \/ n < MaxOps \/ PrintT("BEH|" \o ToJson(<<[op |-> "lex", t |-> t]>>))
Keeps == LET b == Lex(t) IN LET o == Structural(b) IN Balanced(o) /\ Ordered(o) /\ Kept(b, o)
===============================================================================
