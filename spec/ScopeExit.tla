------------------------------ MODULE ScopeExit ------------------------------
\* Scope-exit actions.  A program is a sequence of statements [k, b]:
\*   ev, guard, ret, throw           (b = <<>>)
\*   scope, try, call, noexc         nested bodies
\* Its execution is the sequence of visible events it produces.  Property V04.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Ev == 1
Caught == 3
NoexcTrue == 4
NoexcFalse == 5
Reg(n) == 100 + n
Ran(n) == 200 + n
EndCode(m) == CASE m = "run" -> 10 [] m = "ret" -> 11 [] m = "throw" -> 12

\* Small-step machine: stack of frames, innermost first
Frame(kind, b) == [kind |-> kind, b |-> b, g |-> <<>>]
Boot(prog) == [fr |-> <<Frame("root", prog)>>, mode |-> "run", log |-> <<>>, cnt |-> 0]
Done(m) == m.fr = <<>>

Top(m) == Head(m.fr)
WithTop(m, f) == [m EXCEPT !.fr = <<f>> \o Tail(m.fr)]
Log(m, e) == [m EXCEPT !.log = Append(@, e)]

Stmt(m) ==
  LET f == Top(m) x == Head(f.b) m1 == WithTop(m, [f EXCEPT !.b = Tail(@)]) IN
  CASE x.k = "ev" -> Log(m1, Ev)
    [] x.k = "guard" ->
         LET n == m.cnt + 1 IN
         [Log(WithTop(m1, [Top(m1) EXCEPT !.g = <<n>> \o @]), Reg(n)) EXCEPT !.cnt = n]
    [] x.k = "ret" -> [m1 EXCEPT !.mode = "ret"]
    [] x.k = "throw" -> [m1 EXCEPT !.mode = "throw"]
    [] OTHER -> [m1 EXCEPT !.fr = <<Frame(x.k, x.b)>> \o @]
RunGuard(m) == LET f == Top(m) IN Log(WithTop(m, [f EXCEPT !.g = Tail(@)]), Ran(Head(f.g)))
Leave(m) ==
  LET f == Top(m) p == [m EXCEPT !.fr = Tail(@)] IN
  CASE f.kind = "root" -> Log(p, EndCode(m.mode))
    [] f.kind = "try" /\ m.mode = "throw" -> Log([p EXCEPT !.mode = "run"], Caught)
    [] f.kind = "call" /\ m.mode = "ret" -> [p EXCEPT !.mode = "run"]
    [] f.kind = "noexc" -> Log([p EXCEPT !.mode = "run"], IF m.mode = "throw" THEN NoexcFalse ELSE NoexcTrue)
    [] OTHER -> p

Running(m) == ~Done(m) /\ m.mode = "run" /\ Top(m).b # <<>>
Leaving(m) == ~Done(m) /\ ~(m.mode = "run" /\ Top(m).b # <<>>)
MStep(m) == IF Running(m) THEN Stmt(m) ELSE IF Top(m).g # <<>> THEN RunGuard(m) ELSE Leave(m)

RECURSIVE Finish(_)
Finish(m) == IF Done(m) THEN m ELSE Finish(MStep(m))
\* the only allowed event sequence of a program
Events(prog) == Finish(Boot(prog)).log

\* Statements about a finished log
Occ(l, e) == Cardinality({i \in DOMAIN l : l[i] = e})
Pos(l, e) == CHOOSE i \in DOMAIN l : l[i] = e
RanOnce(l, n) == \A j \in 1..n : Occ(l, Reg(j)) = 1 /\ Occ(l, Ran(j)) = 1 /\ Pos(l, Reg(j)) < Pos(l, Ran(j))
\* scopes nest: actions run in the reverse order of registration whenever they
\* are both pending
Lifo(l, n) == \A a, b \in 1..n :
  (Pos(l, Reg(a)) < Pos(l, Reg(b)) /\ Pos(l, Reg(b)) < Pos(l, Ran(a))) => Pos(l, Ran(b)) < Pos(l, Ran(a))
==============================================================================
