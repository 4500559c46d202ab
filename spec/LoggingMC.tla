------------------------------- MODULE LoggingMC -------------------------------
EXTENDS Logging
CONSTANTS MaxOps, MaxSinks, EmitMode, Rich
VARIABLES st, h
vars == <<st, h>>
R1 == <<[k |-> "msg", t |-> <<97>>], [k |-> "sev", n |-> 3]>>
R2 == <<[k |-> "sev", n |-> 1], [k |-> "cat", t |-> <<99>>], [k |-> "msg", t |-> <<98, 10, 99>>], [k |-> "depth", n |-> 1]>>
R3 == <<>>
Recs == IF Rich THEN {R1, R2, R3} ELSE {R1, R2}
Hows == {"rec", "bld", "bmove", "released", "quiet", "fin", "finmove"}
Filters == {[k |-> "sev", n |-> 2], [k |-> "none"]} \cup (IF Rich THEN {[k |-> "all"], [k |-> "cat", t |-> <<99>>], [k |-> "throw"], [k |-> "notsev", n |-> 3], [k |-> "empty"]} ELSE {})
Slots == IF Rich THEN 1..3 ELSE 1..2
Sinks == 1..MaxSinks
Kinds == IF Rich THEN {"mem", "file", "out"} ELSE {"mem"}
Emits == [op : {"emit"}, how : IF Rich THEN Hows ELSE {"rec", "finmove"}, rec : Recs]
         \cup [op : {"emit"}, how : {"uniq", "chg"}, rec : Recs, n : IF Rich THEN 1..2 ELSE {1}, reset : IF Rich THEN BOOLEAN ELSE {FALSE}]
Blocks == {<<[op |-> "lscope"], [op |-> "ldepth"], [op |-> "push", k |-> "mem"], [op |-> "emit", how |-> "rec", rec |-> R1], [op |-> "throw"]>>,
           <<[op |-> "ldepth"], [op |-> "ldrop"], [op |-> "emit", how |-> "rec", rec |-> R1], [op |-> "push", k |-> "mem"], [op |-> "lscope"], [op |-> "clear"]>>}
Ops == [op : {"push"}, k : Kinds] \cup [op : {"again"}, s : Sinks] \cup [op : {"filter"}, s : Sinks, f : Filters]
       \cup [op : {"clear", "deeper", "shallower", "last"}]
       \cup [op : {"open", "opendrop", "openpush", "drop", "close"}, n : Slots] \cup [op : {"move"}, n : Slots, to : Slots]
       \cup Emits \cup [op : {"macro"}, t : {<<97>>}, n : {0, 4}] \cup [op : {"block"}, b : Blocks, throw : {TRUE}]
Grows(o) == o.op \in {"push", "openpush", "block"}
Init == st = Start /\ h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E o \in Ops :
             /\ Grows(o) => Len(st.kind) < MaxSinks
             /\ o.op = "again" => Len(st.q) < MaxSinks + 1
             /\ o.op = "push" => ~(o.k = "out" /\ "out" \in Range(st.kind))
             /\ o.op = "deeper" => st.depth < 2
             /\ o.op \in {"again", "filter"} => o.s <= Len(st.kind)
             /\ st' = Apply(st, o) /\ h' = Append(h, o)
             /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(h')) ELSE TRUE)
View == [st EXCEPT !.d = <<>>, !.ret = 0]
EmitInv == EmitMode # "depth" \/ Len(h) < MaxOps \/ PrintT("BEH|" \o ToJson(h))
\* nothing reaches a sink twice, or a sink that was not there
Once1 == h # <<>> /\ h[Len(h)].op \in {"emit", "macro"} => \A s \in 1..Len(st.d) : Len(st.d[s]) <= 1 /\ (Len(st.d[s]) = 1 => s \in Range(st.q))
Silent1 == h # <<>> /\ h[Len(h)].op \notin {"emit", "macro", "block"} => \A s \in 1..Len(st.d) : st.d[s] = <<>>
\* a scope left again gives back what was active when it was entered
Restored == [][h'[Len(h')].op = "close" /\ st.sc[h'[Len(h')].n].live => st'.q = st.sc[h'[Len(h')].n].snap]_vars
BlockRestores == [][h'[Len(h')].op = "block" => st'.q = st.q /\ st'.depth = st.depth]_vars
OneOwner == \A k \in Slots : st.sc[k].live => st.sc[k].on
Once == [][Once1']_vars
Silent == [][Silent1']_vars
===============================================================================
