----------------------------- MODULE GraphSearch -----------------------------
\* Graph searches and the events they announce.  A graph is [n, e] with vertices
\* 0..n-1 and e a sequence of [f, t, w]; the out-edges of a vertex are visited in
\* order of e.  Events are [k, i]: kind and vertex number or edge number (from 1).
\* Property V05.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

E(k, i) == [k |-> k, i |-> i]
Out(G, v) == SelectSeq([j \in 1..Len(G.e) |-> j], LAMBDA j : G.e[j].f = v)
Inits(G) == [v \in 1..G.n |-> E("initialize_vertex", v - 1)]

\* ---- breadth first: queue, colours, position in the out-edges of the head
BfsBoot(G, r) == [G |-> G, q |-> <<r>>, col |-> [v \in 0..(G.n - 1) |-> IF v = r THEN "gray" ELSE "white"],
                  todo |-> <<>>, open |-> FALSE,
                  log |-> Append(Inits(G), E("discover_vertex", r))]
BfsDone(m) == m.q = <<>>
BfsExamine(m) == [m EXCEPT !.open = TRUE, !.todo = Out(m.G, Head(m.q)),
                           !.log = Append(@, E("examine_vertex", Head(m.q)))]
BfsEdge(m) ==
  LET j == Head(m.todo) t == m.G.e[j].t
      m1 == [m EXCEPT !.todo = Tail(@), !.log = Append(@, E("examine_edge", j))] IN
  CASE m.col[t] = "white" ->
         [m1 EXCEPT !.col[t] = "gray", !.q = Append(@, t),
                    !.log = @ \o <<E("tree_edge", j), E("discover_vertex", t)>>]
    [] m.col[t] = "gray" -> [m1 EXCEPT !.log = @ \o <<E("non_tree_edge", j), E("gray_target", j)>>]
    [] OTHER -> [m1 EXCEPT !.log = @ \o <<E("non_tree_edge", j), E("black_target", j)>>]
BfsFinish(m) == [m EXCEPT !.col[Head(m.q)] = "black", !.q = Tail(@), !.open = FALSE,
                          !.log = Append(@, E("finish_vertex", Head(m.q)))]
BfsStep(m) == IF ~m.open THEN BfsExamine(m) ELSE IF m.todo # <<>> THEN BfsEdge(m) ELSE BfsFinish(m)

\* ---- depth first: stack of [v, todo]
DfsBoot(G, r) == [G |-> G, stk |-> <<>>, col |-> [v \in 0..(G.n - 1) |-> "white"],
                  roots |-> <<r>> \o [v \in 1..G.n |-> v - 1], log |-> Inits(G)]
DfsDone(m) == m.stk = <<>> /\ m.roots = <<>>
DfsVisit(m, v) == [m EXCEPT !.col[v] = "gray", !.stk = <<[v |-> v, todo |-> Out(m.G, v)]>> \o @,
                            !.log = Append(@, E("discover_vertex", v))]
DfsStep(m) ==
  IF m.stk = <<>>
  THEN LET m1 == [m EXCEPT !.roots = Tail(@)] IN
       IF m.col[Head(m.roots)] = "white" THEN DfsVisit(m1, Head(m.roots)) ELSE m1
  ELSE LET f == Head(m.stk) IN
       IF f.todo = <<>>
       THEN [m EXCEPT !.stk = Tail(@), !.col[f.v] = "black", !.log = Append(@, E("finish_vertex", f.v))]
       ELSE LET j == Head(f.todo) t == m.G.e[j].t
                m1 == [m EXCEPT !.stk = <<[f EXCEPT !.todo = Tail(@)]>> \o Tail(@),
                                !.log = Append(@, E("examine_edge", j))] IN
            IF m.col[t] = "white" THEN DfsVisit([m1 EXCEPT !.log = Append(@, E("tree_edge", j))], t) ELSE m1

\* ---- relaxation (Bellman-Ford): edges grouped by source vertex, in order
RECURSIVE CatOut(_, _)
CatOut(G, v) == IF v = G.n THEN <<>> ELSE Out(G, v) \o CatOut(G, v + 1)
Inf == 1000000
Plus(a, b) == IF a = Inf THEN Inf ELSE a + b
BfBoot(G, r) == [G |-> G, d |-> [v \in 0..(G.n - 1) |-> IF v = r THEN 0 ELSE Inf], pass |-> 1,
                 todo |-> CatOut(G, 0), any |-> FALSE, log |-> <<>>, stop |-> FALSE]
BfDone(m) == m.stop
BfStep(m) ==
  IF m.pass <= m.G.n
  THEN IF m.todo = <<>>
       THEN [m EXCEPT !.pass = IF m.any THEN @ + 1 ELSE m.G.n + 1, !.any = FALSE, !.todo = CatOut(m.G, 0)]
       ELSE LET j == Head(m.todo) e == m.G.e[j] x == Plus(m.d[e.f], e.w) IN
            IF x < m.d[e.t]
            THEN [m EXCEPT !.todo = Tail(@), !.any = TRUE, !.d[e.t] = x,
                           !.log = @ \o <<E("examine_edge", j), E("edge_relaxed", j)>>]
            ELSE [m EXCEPT !.todo = Tail(@), !.log = @ \o <<E("examine_edge", j), E("edge_not_relaxed", j)>>]
  ELSE IF m.todo = <<>> THEN [m EXCEPT !.stop = TRUE]
       ELSE LET j == Head(m.todo) e == m.G.e[j] IN
            IF Plus(m.d[e.f], e.w) < m.d[e.t]
            THEN [m EXCEPT !.stop = TRUE, !.log = Append(@, E("edge_not_minimized", j))]
            ELSE [m EXCEPT !.todo = Tail(@), !.log = Append(@, E("edge_minimized", j))]

RECURSIVE BfsRun(_), DfsRun(_), BfRun(_)
BfsRun(m) == IF BfsDone(m) THEN m.log ELSE BfsRun(BfsStep(m))
DfsRun(m) == IF DfsDone(m) THEN m.log ELSE DfsRun(DfsStep(m))
BfRun(m) == IF BfDone(m) THEN m.log ELSE BfRun(BfStep(m))

\* kinds each adaptor can report
Kinds == {"initialize_vertex", "discover_vertex", "examine_vertex", "examine_edge", "tree_edge",
          "non_tree_edge", "gray_target", "black_target", "finish_vertex"}
BfKinds == {"examine_edge", "edge_relaxed", "edge_not_relaxed", "edge_minimized", "edge_not_minimized"}

Calls(alg, G, r, on) ==
  LET all == CASE alg = "bfs" -> BfsRun(BfsBoot(G, r))
               [] alg = "dfs" -> DfsRun(DfsBoot(G, r))
               [] alg = "bf" -> BfRun(BfBoot(G, r)) IN
  SelectSeq(all, LAMBDA x : x.k \in on)

\* direct announcement of one event to an adaptor
Fired(on, ev) == IF ev.k \in on THEN <<ev>> ELSE <<>>

\* ---- statements about logs
At(l, k, i) == {p \in DOMAIN l : l[p] = E(k, i)}
RECURSIVE Reach(_, _)
Reach(G, S) == LET S2 == S \cup {G.e[j].t : j \in {x \in 1..Len(G.e) : G.e[x].f \in S}} IN
               IF S2 = S THEN S ELSE Reach(G, S2)
===============================================================================
