----------------------------- MODULE ScopeExitMC -----------------------------
EXTENDS ScopeExit
CONSTANTS Len1, Len2
SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Leaf == {[k |-> x, b |-> <<>>] : x \in {"ev", "guard", "ret", "throw"}}
B1 == SeqUpTo(Leaf, Len1)
Comp == {[k |-> x, b |-> y] : x \in {"scope", "try", "call", "noexc"}, y \in B1}
Programs == SeqUpTo(Leaf \cup Comp, Len2)
VARIABLES prog, m
Init == prog \in Programs /\ m = Boot(prog)
Step == Running(m) /\ m' = Stmt(m) /\ UNCHANGED prog
Exit == Leaving(m) /\ m' = MStep(m) /\ UNCHANGED prog
Next == Step \/ Exit
Exact == Done(m) => RanOnce(m.log, m.cnt) /\ Lifo(m.log, m.cnt)
\* nothing pending is ever lost on the way
Pending == {Top(m).g} # {} => \A j \in 1..m.cnt :
  (Occ(m.log, Ran(j)) = 0) <=> \E f \in 1..Len(m.fr) : \E p \in DOMAIN m.fr[f].g : m.fr[f].g[p] = j
PendingOk == ~Done(m) => Pending
EmitProg == (m.log = <<>> /\ Len(m.fr) = 1 /\ m.fr[1].b = prog) => PrintT("BEH|" \o ToJson(prog))
==============================================================================
