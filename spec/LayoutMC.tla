-------------------------------- MODULE LayoutMC --------------------------------
EXTENDS Layout
CONSTANTS MaxOps, EmitMode
VARIABLES st, h
vars == <<st, h>>
Pr(r, lb) == [op |-> "print", left |-> 0, right |-> r, lb |-> lb, rmc |-> 100]
Ops == {[op |-> "text", s |-> "a", n |-> 1], [op |-> "text", s |-> "bbb", n |-> 3], [op |-> "empty"], [op |-> "space", n |-> 2]}
  \cup [op : {"line", "stack", "choice"}, k : 0..2]
  \cup {[op |-> "wrap", k |-> 2, s |-> ",", n |-> 1, z |-> 0, m |-> 1], [op |-> "indent", n |-> 2], [op |-> "breaking"], [op |-> "dup"], [op |-> "add"]}
  \cup [op : {"vertical", "horizontal"}, k : 0..2]
\* choices and wraps are made of blocks that print something
Solid(id) == \A w \in Below(st.b, id) : st.b[w].k # "empty" /\ (st.b[w].k \in {"line", "stack"} => st.b[w].e # <<>>)
Good(o) == Fits(st, o)
  /\ (o.op \in {"choice", "wrap"} => o.k > 0 /\ \A j \in 1..o.k : Solid(Lastn(st, o.k)[j]))
  /\ (o.op = "add" => Solid(Top(st)))
Init == st = Start /\ h = <<>>
Emit(hh) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(hh)) ELSE TRUE
Step(o) == st' = Apply(st, o) /\ h' = Append(h, o) /\ (IF Len(st'.q) = 1 /\ st'.res = "ok" THEN Emit(Append(Append(h', Pr(5, 1)), Pr(2, 5))) ELSE TRUE)
Next == Len(h) < MaxOps /\ \E o \in Ops : Good(o) /\ Step(o)
View == <<st.b, st.q>>
O == Pr(5, 1)
RECURSIVE Frs(_)
Frs(ls) == IF ls = <<>> THEN <<>> ELSE LET f == SelectSeq(Head(ls), LAMBDA i : ~i.sp) IN [j \in 1..Len(f) |-> f[j].s] \o Frs(Tail(ls))
RECURSIVE Words(_, _)
Words(b, id) == IF b[id].k = "text" THEN <<b[id].s>> ELSE
  LET RECURSIVE Sum(_)
      Sum(q) == IF q = <<>> THEN <<>> ELSE Words(b, Head(q)) \o Sum(Tail(q))
  IN Sum(b[id].e)
\* without alternatives every rendering holds every fragment once and in order
Complete == Len(st.q) = 1 /\ (\A w \in Below(st.b, Top(st)) : st.b[w].k \notin {"choice", "wrap"}) =>
  LET S == R(st.b, Top(st), {None}, O) IN Cardinality(S) = 1 /\ \A y \in S : Frs(y.ls) = Words(st.b, Top(st))
\* a choice offers what its alternatives offer
Offers == Len(st.q) = 1 /\ st.b[Top(st)].k = "choice" =>
  LET e == st.b[Top(st)].e IN R(st.b, Top(st), {None}, O) = UNION {R(st.b, e[j], {None}, O) : j \in 1..Len(e)}
Accepts == Len(st.q) = 1 => LET S == Renderings(st, O) IN S # {} /\ \E y \in S : Judge(st, O, Text(y)) = ""
================================================================================
