-------------------------------- MODULE NodeTree --------------------------------
\* A tree written down as a flat list of nodes: opening a node, adding a leaf,
\* closing the innermost open node, failing it, rolling back the tail.
\* par[k] is the node that node k was added under, 0 at the top.  Property O04.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Start == [n |-> <<>>, par |-> <<>>, pend |-> <<>>, ret |-> 0]
Top(st) == IF st.pend = <<>> THEN 0 ELSE st.pend[Len(st.pend)]
Size(st) == Len(st.n)
Pop(st) == SubSeq(st.pend, 1, Len(st.pend) - 1)
Add(st, o) == [st EXCEPT !.n = Append(@, [t |-> o.t, k |-> o.k, v |-> o.v]), !.par = Append(@, Top(st)), !.ret = Size(st) + 1]
Enabled(st, o) ==
  CASE o.op = "end" -> st.pend # <<>>
    [] o.op = "fail" -> st.pend # <<>>
    [] o.op = "cut" -> o.i \in 1..Size(st) /\ st.par[o.i] = Top(st) /\ o.i > Top(st)
    [] OTHER -> TRUE
Apply(st, o) ==
  CASE o.op = "add" /\ o.t = "sub" -> [Add(st, o) EXCEPT !.pend = Append(@, Size(st) + 1)]
    [] o.op = "add" -> Add(st, o)
    [] o.op = "end" -> [st EXCEPT !.pend = Pop(st), !.ret = Top(st)]
    \* the failed node becomes a leaf, what was under it follows it
    [] o.op = "fail" -> LET f == Top(st) IN
         [st EXCEPT !.pend = Pop(st), !.ret = f, !.n[f] = [t |-> o.t, k |-> o.k, v |-> o.v],
                    !.par = [k \in DOMAIN @ |-> IF @[k] = f THEN st.par[f] ELSE @[k]]]
    [] o.op = "cut" -> [st EXCEPT !.n = SubSeq(@, 1, o.i - 1), !.par = SubSeq(@, 1, o.i - 1), !.ret = o.i - 1]
\* ---- what can be asked about a node
Open(st, k) == \E x \in 1..Len(st.pend) : st.pend[x] = k
Kids(st, k) == SelectSeq([x \in 1..Size(st) |-> x], LAMBDA x : st.par[x] = k)
RECURSIVE Under(_, _, _)
Under(st, x, k) == x # 0 /\ (x = k \/ Under(st, st.par[x], k))
Extent(st, k) == IF Open(st, k) THEN 0 ELSE Cardinality({x \in 1..Size(st) : x # k /\ Under(st, x, k)})
Seen(st, k) == IF Open(st, k) THEN <<>> ELSE Kids(st, k)
Parent(st, k) == IF st.par[k] = 0 \/ Open(st, st.par[k]) THEN 0 ELSE st.par[k]
Ask(st, k) ==
  LET e == Extent(st, k) s == Seen(st, k) IN
  [k |-> st.n[k].k, t |-> st.n[k].t, v |-> st.n[k].v, ext |-> e, full |-> e + 1, size |-> Len(s), subs |-> s, iter |-> s, nth |-> s,
   all |-> IF e = 0 THEN <<>> ELSE <<k + 1, k + e>>, par |-> Parent(st, k), past |-> "err", before |-> "err"]
Dump(st) == [k \in 1..Size(st) |-> Ask(st, k)]
\* the printed tree below a closed node: level, kind, place among its siblings, number
RECURSIVE Walk(_, _, _, _)
RECURSIVE WalkAll(_, _, _, _)
Walk(st, k, lev, idx) == <<<<lev, st.n[k].k, idx, k>>>> \o WalkAll(st, Seen(st, k), 1, lev + 1)
WalkAll(st, q, x, lev) == IF x > Len(q) THEN <<>> ELSE Walk(st, q[x], lev, x - 1) \o WalkAll(st, q, x + 1, lev)
===============================================================================
