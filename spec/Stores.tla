-------------------------------- MODULE Stores --------------------------------
\* A store of values (a) and a deduplicating store (b) combined in one multi
\* store.  Identifiers are <<index, mask>>; index -1 is the nil identifier.
\* Also the arithmetic of identifiers.  Property C05.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Start0 == [a |-> <<>>, b |-> <<>>, am |-> <<>>, bm |-> <<>>, ret |-> "ok"]
Find(q, x) == LET S == {k \in 1..Len(q) : q[k] = x} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
Z(st, r) == [st EXCEPT !.ret = r]
\* masks only travel with the identifier: looking up ignores them
Has(q, i) == 0 <= i /\ i < Len(q)
Apply(st, o) ==
  CASE o.op = "adda" -> [st EXCEPT !.a = Append(@, o.x), !.am = Append(@, o.m), !.ret = <<Len(st.a), o.m>>]
    [] o.op = "addb" -> LET k == Find(st.b, o.x) IN
         IF k # 0 THEN Z(st, <<k - 1, st.bm[k]>>)
         ELSE [st EXCEPT !.b = Append(@, o.x), !.bm = Append(@, o.m), !.ret = <<Len(st.b), o.m>>]
    [] o.op = "ata" -> Z(st, IF Has(st.a, o.i) THEN st.a[o.i + 1] ELSE "err")
    [] o.op = "atb" -> Z(st, IF Has(st.b, o.i) THEN st.b[o.i + 1] ELSE "err")
    [] o.op = "hasa" -> Z(st, Has(st.a, o.i))
    [] o.op = "hasb" -> Z(st, Find(st.b, o.x) # 0)
    [] o.op = "seta" -> IF Has(st.a, o.i) THEN [st EXCEPT !.a[o.i + 1] = o.x, !.ret = "ok"] ELSE Z(st, "err")
    [] o.op = "insa" -> IF o.i = -1 \/ o.i > Len(st.a) THEN Z(st, "err")
                        ELSE IF o.i = Len(st.a) THEN [st EXCEPT !.a = Append(@, o.x), !.am = Append(@, 0), !.ret = "ok"]
                        ELSE [st EXCEPT !.a[o.i + 1] = o.x, !.ret = "ok"]
    \* a value that is already interned keeps the identifier it has
    [] o.op = "insb" -> IF Find(st.b, o.x) # 0 THEN Z(st, "ok")
                        ELSE IF o.i = -1 \/ o.i > Len(st.b) THEN Z(st, "err")
                        ELSE IF o.i = Len(st.b) THEN [st EXCEPT !.b = Append(@, o.x), !.bm = Append(@, o.m), !.ret = "ok"]
                        ELSE [st EXCEPT !.b[o.i + 1] = o.x, !.bm[o.i + 1] = o.m, !.ret = "ok"]
    [] o.op = "ends" -> Z(st, IF st.a = <<>> THEN <<-1, -1>> ELSE <<Len(st.a) - 1, Len(st.a) - 1>>)
    [] o.op = "slicea" -> Z(st, IF Has(st.a, o.i) /\ Has(st.a, o.j) /\ o.i <= o.j THEN SubSeq(st.a, o.i + 1, o.j + 1) ELSE "err")

\* ---- identifiers: u = unmasked value (index + 1, 0 is nil), m = mask;
\* top = largest unmasked value, mtop = largest mask
Clamp(x, top) == IF x < 0 THEN 0 ELSE IF x > top THEN top ELSE x
IdOp(o) ==
  LET u == o.u m == o.m top == o.top IN
  CASE o.op = "inc" -> <<<<Clamp(u + 1, top), m>>, <<Clamp(u + 1, top), m>>>>
    [] o.op = "posti" -> <<<<u, m>>, <<Clamp(u + 1, top), m>>>>
    [] o.op = "dec" -> <<<<Clamp(u - 1, top), m>>, <<Clamp(u - 1, top), m>>>>
    [] o.op = "postd" -> <<<<u, m>>, <<Clamp(u - 1, top), m>>>>
    [] o.op = "add" -> <<Clamp(u + o.k, top), m>>
    [] o.op = "mask" -> IF o.k > o.mtop THEN "err" ELSE <<u, o.k>>
    [] o.op = "base" -> <<o.k, m>>
    [] o.op = "cmp" -> [lt |-> u < o.u2, le |-> u <= o.u2, eq |-> u = o.u2 /\ m = o.m2, ne |-> ~(u = o.u2 /\ m = o.m2),
                        dist |-> Clamp(o.u2 - u, top)]
    [] o.op = "facts" -> [nil |-> u = 0, index |-> IF u = 0 THEN -1 ELSE u - 1, mask |-> m,
                          text |-> (IF o.mtop > 0 THEN ToString(m) \o ":" ELSE "") \o (IF u = 0 THEN "<nil>" ELSE ToString(u - 1))]
===============================================================================
