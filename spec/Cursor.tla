--------------------------------- MODULE Cursor ---------------------------------
\* A cursor over a sequence of tokens: toks is the whole stream of kinds (token
\* number k has kind toks[k]), sel the token numbers the cursor walks (all of
\* them, or a selected sub-sequence).  p is the place of the cursor in sel, 0
\* when it has run off either end.  Property O05.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Rng(q) == {q[k] : k \in 1..Len(q)}
Begin(sel, toks) == [toks |-> toks, sel |-> sel, p |-> IF sel = <<>> THEN 0 ELSE 1, ret |-> "ok"]
Here(st, o) == st.p # 0 /\ st.p + o \in 1..Len(st.sel)
Num(st, o) == IF Here(st, o) THEN st.sel[st.p + o] ELSE 0
Kind(st, o) == st.toks[st.sel[st.p + o]]
R(st, x) == [st EXCEPT !.ret = x]
Move(st, o) == [st EXCEPT !.p = IF Here(st, o) THEN @ + o ELSE 0]
At(st, S, o) == Here(st, o) /\ Kind(st, o) \in S
AtAll(st, q, o) == Here(st, o) /\ \A k \in 1..Len(q) : Here(st, o + k - 1) /\ Kind(st, o + k - 1) = q[k]
RECURSIVE Past(_, _, _)
Past(st, S, o) == IF At(st, S, o) THEN Past(st, S, o + 1) ELSE o
Ahead(st, S, q, o) == LET x == Past(st, S, o) IN IF AtAll(st, q, x) THEN x ELSE -1
AheadIn(st, S, T, o) == LET x == Past(st, S, o) IN IF At(st, T, x) THEN x ELSE -1
RECURSIVE Find(_, _, _)
Find(st, k, o) == IF ~Here(st, o) THEN -1 ELSE IF Kind(st, o) = k THEN o ELSE Find(st, k, o + 1)
Skip(st, S, r) == IF At(st, S, 0) THEN R(Move(st, 1), r) ELSE R(st, IF st.p = 0 THEN "end" ELSE "char")
RECURSIVE PopN(_, _, _)
PopN(st, n, out) == IF n = 0 THEN R(st, out) ELSE PopN(Move(st, 1), n - 1, Append(out, Num(st, 0)))
\* what lies between an opening and its matching closing token, or up to the end
RECURSIVE Inside(_, _, _, _, _)
RECURSIVE Opening(_, _, _, _, _)
RECURSIVE Closing(_, _, _, _, _)
Inside(st, S, F, n, out) ==
  IF n = 0 \/ st.p = 0 THEN R(st, out)
  ELSE IF Kind(st, 0) \in S THEN Opening(st, S, F, n, out)
  ELSE IF Kind(st, 0) \in F THEN Closing(st, S, F, n, out)
  ELSE Inside(Move(st, 1), S, F, n, Append(out, Num(st, 0)))
Opening(st, S, F, n, out) == IF st.p # 0 /\ Kind(st, 0) \in S THEN Opening(Move(st, 1), S, F, n, Append(out, Num(st, 0))) ELSE Inside(st, S, F, n + 1, out)
Closing(st, S, F, n, out) == IF st.p # 0 /\ Kind(st, 0) \in F THEN Closing(Move(st, 1), S, F, n, IF n > 1 THEN Append(out, Num(st, 0)) ELSE out) ELSE Inside(st, S, F, n - 1, out)
RECURSIVE First(_, _, _)
First(st, S, F) == IF st.p # 0 /\ Kind(st, 0) \in S THEN First(Move(st, 1), S, F) ELSE Inside(st, S, F, 1, <<>>)
Apply(st, o) ==
  CASE o.op = "next" -> R(Move(st, o.n), "ok")
    [] o.op = "has" -> R(st, Here(st, o.n))
    [] o.op = "get" -> R(st, IF Here(st, o.n) THEN <<Num(st, o.n), Kind(st, o.n)>> ELSE <<>>)
    [] o.op = "tok" -> R(st, IF Here(st, o.n) THEN Kind(st, o.n) ELSE "err")
    [] o.op = "at" -> R(st, At(st, {o.k}, o.n))
    [] o.op = "atset" -> R(st, At(st, Rng(o.s), o.n))
    [] o.op = "atseq" -> R(st, AtAll(st, o.s, o.n))
    [] o.op = "can" -> R(st, st.p # 0 /\ ~At(st, {o.k}, 0))
    [] o.op = "pop" -> R(Move(st, 1), Num(st, 0))
    [] o.op = "popk" -> Skip(st, {o.k}, Num(st, 0))
    [] o.op = "popset" -> Skip(st, Rng(o.s), Num(st, 0))
    [] o.op = "popn" -> PopN(st, o.n, <<>>)
    [] o.op = "skip" -> Skip(st, Rng(o.s), "ok")
    [] o.op = "try" -> R(IF At(st, {o.k}, 0) THEN Move(st, 1) ELSE st, "ok")
    [] o.op = "expect" -> R(st, IF At(st, {o.k}, 0) THEN TRUE ELSE IF st.p = 0 THEN "end" ELSE "char")
    [] o.op = "find" -> R(st, Find(st, o.k, o.n))
    [] o.op = "ahead" -> R(st, Ahead(st, Rng(o.s), o.q, o.n) # -1)
    [] o.op = "aheadset" -> R(st, AheadIn(st, Rng(o.s), Rng(o.q), o.n) # -1)
    [] o.op = "findpast" -> R(st, AheadIn(st, Rng(o.s), Rng(o.q), o.n))
    [] o.op = "inside" -> First(st, Rng(o.s), Rng(o.q))
    \* look around from a saved place, then restore it
    [] o.op = "peek" -> R(st, IF Here(st, o.n) THEN Num(st, o.n) ELSE 0)
    [] o.op = "goto" -> IF o.n \in Rng(st.sel) THEN R([st EXCEPT !.p = CHOOSE k \in 1..Len(st.sel) : st.sel[k] = o.n], "ok") ELSE R(st, "err")
    [] o.op = "rest" -> R(st, IF st.p = 0 THEN <<>> ELSE SubSeq(st.toks, st.sel[st.p], Len(st.toks)))
===============================================================================
