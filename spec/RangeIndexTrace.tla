---------------------------- MODULE RangeIndexTrace ----------------------------
EXTENDS RangeIndex, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Rng(q) == {q[k] : k \in 1..Len(q)}
Bag(q) == [v \in Rng(q) |-> Cardinality({k \in 1..Len(q) : q[k] = v})]
Up(q) == \A k \in 1..(Len(q) - 1) : q[k] <= q[k + 1]
Seg(x) == <<x.f, x.l, {<<t[1], Bag(t[2])>> : t \in Rng(x.tags)}>>
OkSeg(x, gs) == /\ Cardinality({<<t[1], Bag(t[2])>> : t \in Rng(x.tags)}) = Len(x.tags)
                /\ \A t \in Rng(x.tags) : Up(t[2])
                /\ x.has = [k \in 1..Len(gs) |-> [v \in 1..3 |-> \E t \in Rng(x.tags) : t[1] = gs[k].kind /\ (v + 6) \in Rng(t[2])]]
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     CASE e.op \in {"crash", "hang"} -> bad' = TRUE /\ Reject(<<e.op, e.what>>)
       [] e.op = "point" -> LET want == Covering(Scen[s].cfg.rs, e.p) IN
            /\ bad' = ~(Rng(e.r.v) = {<<k, Scen[s].cfg.rs[k + 1][1], Scen[s].cfg.rs[k + 1][2]>> : k \in want} /\ Len(e.r.v) = Cardinality(want))
            /\ bad' => Reject(want)
       [] e.op = "cut" -> LET gs == Scen[s].cfg.gs want == Segments(gs, e.first, e.last) IN
            /\ bad' = ~([k \in 1..Len(e.r.v) |-> Seg(e.r.v[k])] = want /\ \A k \in 1..Len(e.r.v) : OkSeg(e.r.v[k], gs))
            /\ bad' => Reject(want)
===============================================================================
