------------------------------ MODULE BaseLexerMC ------------------------------
\* Texts are put together from fragments of org syntax; every text reached is
\* tokenized by the specification.
EXTENDS BaseLexer
CONSTANTS MaxOps, EmitMode, Part
VARIABLES t, n
vars == <<t, n>>
LF == <<10>>
Frag1 == {B("*"), B(" "), LF, B("a"), B("1"), B("-"), B("+"), B("|"), B(":"), B("#"), B("["), B("]"), B("<"), B(">"), B("{"), B("}"), B("="), B("~"), B("/"), B("_"),
          B("\\"), B("@"), B("."), B(","), B("'"), B("\""), B("%"), <<240, 159, 152, 128>>, <<195, 188>>, <<226, 128, 147>>, <<255>>, <<9>>}
Frag2 == {LF, B("- "), B("* "), B(" "), B("#+begin_src c"), B("#+end_src"), B("#+begin_example"), B("  #+end_example"), B("#+title: x"), B(":a:"), B("[[file:x"), B("[[a"),
          B("]]"), B("]["), B("http://x"), B("src_c{a}"), B("src_"), B("<2024-01-02"), B("10:20"), B("+1d"), B("12_3"), B("99999999999a"), B("@@x:y"), B("@@"), B("~"), B("|--+"), B("| "), B("clock:"), B(":description:"),
          B(":header-args: :x \"y"), B("[fn:a]"), B("[1/2]"), B("{++"), B("#+property: header-args z"), B("x-y'z"), B("#+begin_quote"), B("SCHEDULED:"), B("#+a")}
Frags == IF Part = 1 THEN Frag1 ELSE IF Part = 2 THEN Frag2 ELSE Frag1 \cup Frag2
Init == t = <<>> /\ n = 0
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E f \in Frags : t' = t \o f /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(<<[op |-> "lex", t |-> t']>>)) ELSE TRUE)
View == t
EmitInv == EmitMode # "depth" \/ n < MaxOps \/ PrintT("BEH|" \o ToJson(<<[op |-> "lex", t |-> t]>>))
KeepsText == Lossless(t)
KeepsPlace == Placed(t)
===============================================================================
