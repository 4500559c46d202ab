---------------------------- MODULE GraphSearchMC ----------------------------
EXTENDS GraphSearch
CONSTANTS N, MaxE
Pairs == {[f |-> a, t |-> b, w |-> ((a + 2 * b) % 3) - (IF b = 0 THEN 1 ELSE 0)] : a, b \in 0..(N - 1)}
Graphs == {[n |-> N, e |-> q] : q \in UNION {[1..k -> Pairs] : k \in 0..MaxE}}
VARIABLES G, r, alg, m
Init == /\ G \in Graphs /\ r \in 0..(N - 1) /\ alg \in {"bfs", "dfs", "bf"}
        /\ m = CASE alg = "bfs" -> BfsBoot(G, r) [] alg = "dfs" -> DfsBoot(G, r) [] OTHER -> BfBoot(G, r)
Bfs == alg = "bfs" /\ ~BfsDone(m) /\ m' = BfsStep(m) /\ UNCHANGED <<G, r, alg>>
Dfs == alg = "dfs" /\ ~DfsDone(m) /\ m' = DfsStep(m) /\ UNCHANGED <<G, r, alg>>
Bf == alg = "bf" /\ ~BfDone(m) /\ m' = BfStep(m) /\ UNCHANGED <<G, r, alg>>
Next == Bfs \/ Dfs \/ Bf
BfsExact == (alg = "bfs" /\ BfsDone(m)) =>
  \A v \in 0..(N - 1) : Cardinality(At(m.log, "discover_vertex", v)) = (IF v \in Reach(G, {r}) THEN 1 ELSE 0)
                        /\ Cardinality(At(m.log, "finish_vertex", v)) = (IF v \in Reach(G, {r}) THEN 1 ELSE 0)
DfsExact == (alg = "dfs" /\ DfsDone(m)) =>
  \A v \in 0..(N - 1) : Cardinality(At(m.log, "discover_vertex", v)) = 1 /\ Cardinality(At(m.log, "finish_vertex", v)) = 1
DfsNest == (alg = "dfs" /\ DfsDone(m)) => \A j \in 1..Len(G.e) : At(m.log, "tree_edge", j) # {} =>
  \A p \in At(m.log, "discover_vertex", G.e[j].t), q \in At(m.log, "finish_vertex", G.e[j].f) : p < q
EveryEdgeOnce == (alg \in {"bfs", "dfs"} /\ (IF alg = "bfs" THEN BfsDone(m) ELSE DfsDone(m))) =>
  \A j \in 1..Len(G.e) : Cardinality(At(m.log, "examine_edge", j)) = (IF alg = "dfs" \/ G.e[j].f \in Reach(G, {r}) THEN 1 ELSE 0)
BfSettled == (alg = "bf" /\ BfDone(m)) =>
  ((\E j \in 1..Len(G.e) : At(m.log, "edge_not_minimized", j) # {})
   <=> \E j \in 1..Len(G.e) : Plus(m.d[G.e[j].f], G.e[j].w) < m.d[G.e[j].t])
EmitGraph == (alg = "bfs" /\ m.log = Append(Inits(G), E("discover_vertex", r)) /\ ~m.open) => PrintT("BEH|" \o ToJson([g |-> G, r |-> r]))
===============================================================================
