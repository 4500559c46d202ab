-------------------------------- MODULE Lazy --------------------------------
\* Lazily produced sequences (generators) and early-exit result chains.
\* A program is a sequence of [k, v] with k in "y" (yield v), "e" (visible
\* effect v), "t" (throw).  Each slot holds one generator.  Property V07.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
None == [st |-> "none", prog |-> <<>>, pc |-> 1, cur |-> 0]
Slots == {1, 2}
Start0 == [g |-> [i \in Slots |-> None], ret |-> [log |-> <<>>, v |-> "ok"]]
\* body events: 0 body entered, positive effects, -1 locals released
RECURSIVE Go(_, _)
Go(g, log) ==
  IF g.pc > Len(g.prog) THEN [g |-> [g EXCEPT !.st = "done"], log |-> Append(log, -1), v |-> "ok"]
  ELSE LET x == g.prog[g.pc] g1 == [g EXCEPT !.pc = @ + 1] IN
       CASE x.k = "y" -> [g |-> [g1 EXCEPT !.st = "susp", !.cur = x.v], log |-> log, v |-> "ok"]
         [] x.k = "e" -> Go(g1, Append(log, x.v))
         [] OTHER -> [g |-> [g1 EXCEPT !.st = "failed"], log |-> Append(log, -1), v |-> "err"]
Resume(g) == Go(g, IF g.st = "new" THEN <<0>> ELSE <<>>)
Can(m, o) ==
  LET st == m.g[o.i].st IN
  CASE o.op = "new" -> st = "none"
    [] o.op = "begin" -> st = "new"
    [] o.op \in {"inc", "deref", "set"} -> st = "susp"
    [] o.op = "isend" -> st \in {"susp", "done"}
    [] o.op = "move" -> st # "none" /\ m.g[3 - o.i].st = "none"
    [] o.op = "drop" -> st # "none"
R(m, i, g, log, v) == [g |-> [m.g EXCEPT ![i] = g], ret |-> [log |-> log, v |-> v]]
Apply(m, o) ==
  LET g == m.g[o.i] IN
  CASE o.op = "new" -> R(m, o.i, [None EXCEPT !.st = "new", !.prog = o.p], <<>>, "ok")
    [] o.op \in {"begin", "inc"} -> LET z == Resume(g) IN R(m, o.i, z.g, z.log, z.v)
    [] o.op = "deref" -> R(m, o.i, g, <<>>, g.cur)
    [] o.op = "set" -> R(m, o.i, [g EXCEPT !.cur = o.v], <<>>, "ok")
    [] o.op = "isend" -> R(m, o.i, g, <<>>, g.st = "done")
    [] o.op = "move" -> [g |-> [m.g EXCEPT ![o.i] = None, ![3 - o.i] = g], ret |-> [log |-> <<>>, v |-> "ok"]]
    [] OTHER -> R(m, o.i, None, IF g.st = "susp" THEN <<-1>> ELSE <<>>, "ok")

\* ---- result chains: steps [k, on, v]; the first step that is off ends the chain
RECURSIVE Chain(_, _, _, _)
Chain(c, i, sum, ev) ==
  IF i > Len(c) THEN [ok |-> TRUE, v |-> sum, at |-> 0, ev |-> ev]
  ELSE IF ~c[i].on THEN [ok |-> FALSE, v |-> 0, at |-> i, ev |-> Append(ev, i)]
  ELSE Chain(c, i + 1, sum + c[i].v, Append(ev, i))
Run(c) == Chain(c, 1, 0, <<>>)
===============================================================================
