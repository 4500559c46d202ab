------------------------------- MODULE Hierarchy -------------------------------
\* Vertices of one graph arranged in several hierarchies.  Each hierarchy covers
\* some of the vertices; par[v] is the vertex v is nested under, 0 for a root.
\* Property G02.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Hs == 1..2
\* in: vertices the hierarchy covers; par: function from covered vertices
EmptyH == [in |-> {}, par |-> <<>>]
Start == [live |-> {}, n |-> 0, hs |-> [k \in Hs |-> EmptyH], res |-> "ok", del |-> [k \in Hs |-> [v |-> {}, e |-> {}]]]
None == [k \in Hs |-> [v |-> {}, e |-> {}]]
Put(f, v, x) == [w \in DOMAIN f \cup {v} |-> IF w = v THEN x ELSE f[w]]
Subs(H, v) == {w \in H.in : H.par[w] = v}
Roots(H) == Subs(H, 0)
RECURSIVE Under(_, _)
Under(H, v) == {v} \cup UNION {Under(H, w) : w \in Subs(H, v)}
RECURSIVE Chain(_, _)
Chain(H, v) == IF v \notin H.in \/ H.par[v] = 0 THEN <<>> ELSE <<H.par[v]>> \o Chain(H, H.par[v])
Set(q) == {q[j] : j \in 1..Len(q)}
Edges(H) == {<<H.par[v], v>> : v \in {w \in H.in : H.par[w] # 0}}
Without(H, D) == [in |-> H.in \ D, par |-> [w \in H.in \ D |-> H.par[w]]]
Drop(H, v) == [h |-> Without(H, Under(H, v)), d |-> [v |-> Under(H, v), e |-> {e \in Edges(H) : e[2] \in Under(H, v)}]]
RECURSIVE Level(_, _)
Level(H, v) == LET S == {Level(H, w) : w \in Subs(H, v)} IN IF S = {} THEN 1 ELSE 1 + CHOOSE m \in S : \A x \in S : x <= m
MaxLevel(H) == LET S == {Level(H, w) : w \in Roots(H)} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
Ok(st) == [st EXCEPT !.res = "ok"]
Err(st) == [st EXCEPT !.res = "err"]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.del = None] IN
  CASE o.op = "addV" -> [Ok(st) EXCEPT !.n = @ + 1, !.live = @ \cup {st.n + 1}]
    [] o.op = "delV" ->
       IF o.v \notin st.live THEN Err(st)
       ELSE [Ok(st) EXCEPT !.live = @ \ {o.v},
               !.hs = [k \in Hs |-> IF o.v \in st.hs[k].in THEN Drop(st.hs[k], o.v).h ELSE st.hs[k]],
               !.del = [k \in Hs |-> IF o.v \in st.hs[k].in THEN Drop(st.hs[k], o.v).d ELSE [v |-> {}, e |-> {}]]]
    [] o.op = "track" -> LET H == st.hs[o.h] IN
       IF o.v \in H.in THEN Err(st) ELSE [Ok(st) EXCEPT !.hs[o.h] = [in |-> H.in \cup {o.v}, par |-> Put(H.par, o.v, 0)]]
    [] o.op = "untrack" -> LET H == st.hs[o.h] IN
       IF o.v \notin H.in THEN Err(st) ELSE [Ok(st) EXCEPT !.hs[o.h] = Drop(H, o.v).h, !.del[o.h] = Drop(H, o.v).d]
    [] o.op = "nest" -> LET H == st.hs[o.h] IN
       IF o.p \notin H.in \/ o.s \notin H.in \/ (o.via = "graph" /\ ~({o.p, o.s} \subseteq st.live)) THEN Err(st)
       ELSE IF H.par[o.s] # 0 \/ o.s \in {o.p} \cup Set(Chain(H, o.p)) THEN Err(st)
       ELSE [Ok(st) EXCEPT !.hs[o.h].par[o.s] = o.p]
    [] o.op = "unnest" -> LET H == st.hs[o.h] IN
       IF o.p \notin H.in \/ o.s \notin H.in THEN Err(st)
       ELSE IF H.par[o.s] # o.p THEN Err(st) ELSE [Ok(st) EXCEPT !.hs[o.h].par[o.s] = 0]
    [] o.op = "ask" -> Ok(st)
\* ---- group boundaries between two vertices: out of the groups around the source,
\* then into the groups around the target.  An edge to the group directly around the
\* source crosses the boundary of that group, unless it is outermost.
RECURSIVE UntilIn(_, _)
UntilIn(q, S) == IF q = <<>> \/ Head(q) \in S THEN <<>> ELSE <<Head(q)>> \o UntilIn(Tail(q), S)
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Rev(Tail(q)) \o <<Head(q)>>
Crossings(H, a, b) ==
  LET up == Chain(H, a)  down == Chain(H, b) IN
  IF up # <<>> /\ up[1] = b THEN (IF down = <<>> THEN <<>> ELSE <<b>>)
  ELSE UntilIn(up, {b} \cup Set(down)) \o Rev(UntilIn(down, {a} \cup Set(up)))
\* ---- nearest vertex all of S are nested in; only asked for vertices not nested in each other
Apart(H, S) == \A a, b \in S : a # b => a \notin Set(Chain(H, b))
Ancestor(H, S) ==
  LET a == CHOOSE x \in S : TRUE
      q == SelectSeq(Chain(H, a), LAMBDA x : \A b \in S : x \in Set(Chain(H, b)))
  IN IF S = {} THEN 0 ELSE IF q # <<>> THEN q[1] ELSE IF S = {a} THEN a ELSE 0
UntilChain(H, a, b) == UntilIn(Chain(H, a), {b})
===============================================================================
