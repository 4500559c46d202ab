------------------------------ MODULE CommitGateMC ------------------------------
\* Messages put together line by line from parts with every relevant feature.
EXTENDS CommitGate
CONSTANTS MaxOps, EmitMode
VARIABLES t, n
vars == <<t, n>>
Rep(c, k) == [j \in 1..k |-> c]
NL == <<10>>
F == B("feat")
Subjects == {F \o <<58, 32>> \o B("x"),                                  \* feat: x
             B("fix") \o <<40>> \o B("py") \o <<41, 58, 32>> \o B("y"),  \* fix(py): y
             <<70, 73, 88, 40, 80, 89, 41, 58, 9>> \o B("z"),            \* FIX(PY):<tab>z
             F \o <<40, 41, 58, 32>> \o B("x"), F \o <<40>> \o B("zz") \o <<41, 58, 32>> \o B("x"), F \o <<58>> \o B("x"), F \o <<58, 32>>, B("foo") \o <<58, 32>> \o B("x"),
             <<32>> \o F \o <<58, 32>> \o B("x"), F \o <<32, 58, 32>> \o B("x"), F \o <<58, 32>> \o Rep(97, 44), F \o <<58, 32>> \o Rep(97, 45), Merge \o Rep(97, 90), <<77, 101, 114, 103, 101>>,
             <<49>> \o F \o <<58, 32>> \o B("x")}
Others   == {<<>>, <<32, 32>>, <<9>>, <<35, 32>> \o B("c"), <<32, 35>>, B("a"), Rep(97, 75), Rep(97, 76), Rep(32, 80), <<96, 96, 96>>, <<32, 96, 96, 96>> \o B("c"), <<96, 96>>,
             <<35>> \o Rep(97, 80), Rep(97, 74) \o <<195, 188>>, Rep(97, 75) \o <<195, 188>>}
Init == t = <<>> /\ n = 0
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E l \in Subjects \cup Others, b \in {NL, <<13, 10>>, <<>>} :
               /\ (b # NL => n + 1 = MaxOps \/ EmitMode # "none")
               /\ t' = t \o l \o b
        /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(<<[op |-> "msg", t |-> t', extra |-> 0]>>)) ELSE TRUE)
View == t
EmitInv == EmitMode # "depth" \/ n < MaxOps \/ PrintT("BEH|" \o ToJson(<<[op |-> "msg", t |-> t, extra |-> 0]>>))

\* the verdict does not depend on comments, nor on the kind of line break
RECURSIVE DropCR(_)
DropCR(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) > 1 /\ s[1] = 13 /\ s[2] = 10 THEN DropCR(Tail(s)) ELSE <<s[1]>> \o DropCR(Tail(s))
BreakKind == Verdict(t) = Verdict(DropCR(t))
Comments  == Verdict(<<35, 32, 120, 10>> \o t) = Verdict(t)
Accepted  == Verdict(t) = "accept" => \/ SubSeq(Kept(t)[CHOOSE k \in 1..Len(Kept(t)) : ~IsBlank(Kept(t)[k]) /\ \A j \in 1..(k - 1) : IsBlank(Kept(t)[j])], 1, 6) = Merge
                                      \/ Cardinality({k \in 1..Len(Kept(t)) : ~IsBlank(Kept(t)[k])}) >= 2
\* adding ordinary body text to an accepted message outside of fences keeps it accepted
Grows     == Verdict(t) = "accept" => Verdict(t \o NL \o NL \o B("more")) = "accept"
================================================================================
