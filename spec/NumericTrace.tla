----------------------------- MODULE NumericTrace -----------------------------
EXTENDS Numeric, IOUtils
Scen == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i, bad
TInit == s \in 1..Len(Scen) /\ i = 0 /\ bad = FALSE
Reject(why) == PrintT("REJECT|" \o ToString(s) \o "|" \o ToString(i + 1) \o "|" \o ToString(why))
Want(e) ==
  CASE e.op = "dom" -> LET x == Norm(e.x) IN
         [lo |-> DomLow(e.d), hi |-> DomHigh(e.d), ord |-> Ord(e.d, x),
          succ |-> IF x = DomHigh(e.d) THEN Zero ELSE Succ(x),
          prev |-> IF x = DomLow(e.d) THEN Zero ELSE Prev(x)]
    [] e.op = "sadd" -> SatAdd(e.t, Norm(e.a), Norm(e.b))
    [] e.op = "ssub" -> SatSub(e.t, Norm(e.a), Norm(e.b))
    [] e.op = "sany" -> SatAdd(e.t, Norm(e.a), Norm(e.b))
    [] e.op = "bits" -> [eq |-> MaskedEquals(e.a, e.m, e.v), as |-> AssignMasked(e.a, e.m, e.v),
                         wo |-> WithoutMasked(e.a, e.m), rt |-> BitsRight(e.a, e.m, e.k)]
    [] e.op = "dump" -> [hex |-> Hex(e.t, Norm(e.x)), bin |-> Bin(e.t, Norm(e.x))]
    [] e.op = "ptr" -> [in |-> Within(e.p, e.a, e.n), ok |-> Within(e.p, e.a, e.n), null |-> FALSE, dist |-> e.p - e.a]
    [] e.op = "join" -> Join(e.sep, e.l)
    [] e.op = "close" -> Close(e.a, e.b, e.rt, e.at)
    [] e.op = "pow" -> PowI(e.n, e.k)
    [] e.op = "pack" -> \E j \in 1..Len(e.p) : e.p[j] = e.x
    [] OTHER -> "no such event"
Got(e) == IF e.op \in {"sadd", "ssub", "sany"} THEN Norm(e.r.v)
          ELSE IF e.op = "dom" THEN [k \in DOMAIN e.r.v |-> Norm(e.r.v[k])] ELSE e.r.v
TNext ==
  /\ ~bad /\ i < Len(Scen[s].ev) /\ i' = i + 1 /\ s' = s
  /\ LET e == Scen[s].ev[i + 1] IN
     IF e.op \in {"crash", "hang"} THEN bad' = TRUE /\ Reject(<<e.op, e.what>>)
     ELSE /\ bad' = (Got(e) # Want(e))
          /\ bad' => Reject(Want(e))
===============================================================================
