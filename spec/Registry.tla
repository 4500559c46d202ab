-------------------------------- MODULE Registry --------------------------------
\* Registry of source texts.  st.q is the sequence of registered <<path, text>>
\* pairs; entry number k is identifier k.  Property O08.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Begin == [q |-> <<>>, ret |-> "ok"]
R(st, x) == [st EXCEPT !.ret = x]
Known(st, p) == \E k \in 1..Len(st.q) : st.q[k][1] = p
Which(st, p) == CHOOSE k \in 1..Len(st.q) : st.q[k][1] = p
Apply(st, o) ==
  CASE o.op = "add" -> IF ~Known(st, o.p) THEN [q |-> Append(st.q, <<o.p, o.t>>), ret |-> Len(st.q) + 1]
                       ELSE R(st, IF st.q[Which(st, o.p)][2] = o.t THEN Which(st, o.p) ELSE "err")
    [] o.op = "id" -> R(st, IF Known(st, o.p) THEN Which(st, o.p) ELSE "err")
    [] o.op = "text" -> R(st, IF Known(st, o.p) THEN st.q[Which(st, o.p)][2] ELSE "err")
    [] o.op = "path" -> R(st, IF o.n \in 1..Len(st.q) THEN st.q[o.n][1] ELSE "err")
    [] o.op = "content" -> R(st, IF o.n \in 1..Len(st.q) THEN st.q[o.n][2] ELSE "err")
===============================================================================
