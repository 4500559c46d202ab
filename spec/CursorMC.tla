-------------------------------- MODULE CursorMC --------------------------------
EXTENDS Cursor
CONSTANTS MaxOps, EmitMode
VARIABLES st, h
vars == <<st, h>>
Streams == {<<>>, <<1>>, <<1, 2>>, <<1, 2, 1, 3>>, <<2, 1, 1, 3, 3, 2>>}
Sels(t) == {[k \in 1..Len(t) |-> k]} \cup (IF Len(t) = 6 THEN {<<2, 4, 5>>, <<1, 2, 3, 6>>, <<3>>, <<1, 3, 5>>} ELSE {})
Sets == {<<>>, <<1>>, <<1, 3>>}
Ops == {[op |-> k, n |-> n] : k \in {"next", "has", "get", "peek"}, n \in -2..3}
  \cup {[op |-> "tok", n |-> n] : n \in 0..2} \cup {[op |-> "goto", n |-> n] : n \in 1..6}
  \cup {[op |-> "at", k |-> k, n |-> n] : k \in 1..3, n \in -1..1}
  \cup {[op |-> "atset", s |-> s, n |-> n] : s \in Sets, n \in -1..1}
  \cup {[op |-> "atseq", s |-> s, n |-> n] : s \in Sets, n \in {0, 1}}
  \cup {[op |-> k, k |-> x] : k \in {"can", "popk", "try", "expect"}, x \in {1, 2}}
  \cup {[op |-> k, s |-> s] : k \in {"popset", "skip"}, s \in Sets}
  \cup {[op |-> "popn", n |-> n] : n \in {0, 2}} \cup {[op |-> "pop"], [op |-> "rest"]}
  \cup {[op |-> "find", k |-> x, n |-> n] : x \in 1..3, n \in {0, 1}}
  \cup {[op |-> k, s |-> s, q |-> q, n |-> n] : k \in {"ahead", "aheadset", "findpast"}, s \in Sets, q \in Sets, n \in {0, 1}}
  \cup {[op |-> "inside", s |-> s, q |-> q] : s \in {<<1>>, <<1, 2>>}, q \in {<<3>>, <<2>>}}
Init == h = <<>> /\ \E t \in Streams : \E q \in Sels(t) : st = Begin(q, t)
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops : (o.op = "goto" => Len(st.sel) < Len(st.toks) \/ o.n \in Rng(st.sel)) /\ st' = Apply(st, o) /\ h' = Append(h, o)
                          /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(<<[op |-> "start", toks |-> st.toks, sel |-> st.sel]>> \o h')) ELSE TRUE)
View == [st EXCEPT !.ret = "ok"]
EmitInv == EmitMode # "depth" \/ Len(h) < MaxOps \/ PrintT("BEH|" \o ToJson(<<[op |-> "start", toks |-> st.toks, sel |-> st.sel]>> \o h))
Looks == {"has", "get", "tok", "at", "atset", "atseq", "can", "expect", "find", "ahead", "aheadset", "findpast", "peek", "rest"}
Still == [][h'[Len(h')].op \in Looks => st'.p = st.p]_vars
Forward == [][h'[Len(h')].op \notin {"goto", "next"} => (st'.p = 0 \/ st'.p >= st.p)]_vars
Fixed == [][st'.sel = st.sel /\ st'.toks = st.toks]_vars
InRange == st.p \in 0..Len(st.sel)
===============================================================================
