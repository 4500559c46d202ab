-------------------------------- MODULE Tracking --------------------------------
\* Announcing started, ended and named items to registered processors while tracing
\* is on.  Processor 0 writes log records and tracks nesting depth.  Property L02.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Start == [on |-> FALSE, procs |-> <<>>, depth |-> 0, exc |-> FALSE, out |-> <<>>]
\* an item: k = what happened, a/b = names, n = line of the call site, args
Item(k, a, b, n, args) == [k |-> k, a |-> a, b |-> b, n |-> n, args |-> args]
LogText(x) ==
  CASE x.k = "fs" -> "function enter::'" \o x.a \o "'"
    [] x.k = "se" -> "scope enter::'" \o x.a \o "'"
    [] x.k = "st" -> "track started"
    [] x.k = "en" -> "track ended"
    [] x.k = "text" -> "track named text::'" \o x.a \o "' = '" \o x.b \o "'"
    [] x.k = "jump" -> "named jump::'" \o x.a \o "'"
\* the log processor: an entry per item except for ends, one level deeper after a start
Tell0(st, x) ==
  LET d == IF x.k \in {"fe", "sx", "en"} THEN st.depth - 1 ELSE st.depth
      e == IF x.k \in {"fs", "se", "st"} THEN d + 1 ELSE d
  IN [st EXCEPT !.depth = e, !.out = IF x.k \in {"fe", "sx"} THEN @ ELSE Append(@, [p |-> 0, k |-> LogText(x), a |-> "", b |-> "", n |-> x.n, d |-> d, args |-> <<>>])]
Tell1(st, p, x) == [st EXCEPT !.out = Append(@, [p |-> p, k |-> x.k, a |-> x.a, b |-> x.b, n |-> x.n, d |-> 0, args |-> x.args])]
RECURSIVE TellAll(_, _, _)
TellAll(st, j, x) == IF j > Len(st.procs) THEN st
                     ELSE TellAll(IF st.procs[j] = 0 THEN Tell0(st, x) ELSE Tell1(st, st.procs[j], x), j + 1, x)
Announce(st, x) == IF st.on THEN TellAll(st, 1, x) ELSE st
Args(o) == [j \in 1..Len(o.args) |-> <<o.args[j][1], o.args[j][2]>>]
Simple(st, o) ==
  CASE o.op = "add" -> [st EXCEPT !.procs = Append(@, o.p)]
    [] o.op = "start" -> IF st.on THEN [st EXCEPT !.exc = TRUE] ELSE Announce([st EXCEPT !.on = TRUE], Item("st", "", "", o.n, <<>>))
    [] o.op = "end" -> IF ~st.on THEN [st EXCEPT !.exc = TRUE] ELSE [Announce(st, Item("en", "", "", o.n, <<>>)) EXCEPT !.on = FALSE]
    [] o.op \in {"fs", "fe"} -> Announce(st, Item(o.op, o.a, "", o.n, Args(o)))
    [] o.op \in {"se", "sx", "jump"} -> Announce(st, Item(o.op, o.a, "", o.n, <<>>))
    [] o.op = "text" -> Announce(st, Item("text", o.a, o.b, o.n, <<>>))
    [] o.op = "throw" -> [st EXCEPT !.exc = TRUE]
\* code with tracked scopes and functions; leaving the code, also by an exception, ends them innermost first
RECURSIVE Run(_, _, _)
Run(st, b, k) ==
  IF st.exc \/ k > Len(b) THEN st
  ELSE LET o == b[k] IN
  CASE o.op = "scope" -> Announce(Run(Announce(st, Item("se", o.a, "", o.n, <<>>)), b, k + 1), Item("sx", o.a, "", o.n, <<>>))
    [] o.op = "func" -> Announce(Run(Announce(st, Item("fs", o.a, "", o.n, Args(o))), b, k + 1), Item("fe", o.a, "", o.n, Args(o)))
    [] o.op = "block" -> Run(Run(st, o.b, 1), b, k + 1)
    [] o.op = "try" -> Run([Run(st, o.b, 1) EXCEPT !.exc = FALSE], b, k + 1)
    [] OTHER -> Run(Simple(st, o), b, k + 1)
Apply(st0, o) == LET st == [st0 EXCEPT !.exc = FALSE, !.out = <<>>] IN IF o.op = "run" THEN Run(st, o.b, 1) ELSE Simple(st, o)
===============================================================================
