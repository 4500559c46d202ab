------------------------------ MODULE SetAlgebra ------------------------------
\* Two value sets a and b over a finite domain D, edited and combined.
\* Values are integers (ordinals); hashed sets have no domain (D is only the
\* universe probed).  Property C02.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Range(q) == {q[k] : k \in 1..Len(q)}
Between(D, lo, hi) == {x \in D : lo <= x /\ x <= hi}
Start0 == [a |-> {}, b |-> {}, ret |-> "ok"]
Z(a, b, r) == [a |-> a, b |-> b, ret |-> r]
Apply(D, st, o) ==
  LET a == st.a b == st.b IN
  CASE o.op = "incl" -> Z(a \cup {o.x}, b, "ok")
    [] o.op = "excl" -> Z(a \ {o.x}, b, "ok")
    [] o.op = "inclr" -> Z(a \cup Between(D, o.lo, o.hi), b, "ok")
    [] o.op = "exclr" -> Z(a \ Between(D, o.lo, o.hi), b, "ok")
    [] o.op = "incls" -> Z(a \cup b, b, "ok")
    [] o.op = "excls" -> Z(a \ b, b, "ok")
    [] o.op = "swap" -> Z(b, a, "ok")
    [] o.op = "copy" -> Z(a, a, "ok")
    [] o.op \in {"plus", "or"} -> Z(a \cup b, b, "ok")
    [] o.op = "minus" -> Z(a \ b, b, "ok")
    [] o.op = "and" -> Z(a \cap b, b, "ok")
    [] o.op = "xor" -> Z((a \ b) \cup (b \ a), b, "ok")
    [] o.op = "compl" -> Z(D \ a, b, "ok")
    [] o.op = "build" -> Z(Between(D, o.lo, o.hi) \cup {o.x}, b, "ok")
    [] o.op = "cmp" -> Z(a, b, [eq |-> a = b, lt |-> a # b /\ a \subseteq b, le |-> a \subseteq b, gt |-> a # b /\ b \subseteq a,
                               ge |-> b \subseteq a, sup |-> b \subseteq a])
    [] o.op = "has" -> Z(a, b, o.x \in a)
\* the contents as listed by iteration: every member once
Lists(q, s) == Len(q) = Cardinality(s) /\ Range(q) = s
===============================================================================
