----------------------------- MODULE OwnershipMC -----------------------------
EXTENDS Ownership
CONSTANTS MaxObj, MaxU, Depth, EmitMode, Which
VARIABLES st, h
vars == <<st, h>>
Init == st = Start0 /\ h = <<>>
TheOps == IF Which = "shared" THEN SharedOps ELSE IF Which = "unique" THEN UniqueOps ELSE Ops
Emit(x) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(x)) ELSE TRUE
Next == \E o \in TheOps :
  /\ Len(h) < Depth
  /\ o.op \in {"shared", "clone"} => Len(st.obj) < MaxObj
  /\ o.op = "newu" => st.n < MaxU
  /\ st' = Apply(st, o) /\ h' = Append(h, o) /\ Emit(h')
View == st
EmitInv == (EmitMode = "depth" /\ Len(h) = Depth) => PrintT("BEH|" \o ToJson(h))
\* an object is owned as long as some handle refers to it; unique objects have one owner
OneOwner == \A p, q \in {st.u, st.c1, st.c2} : (p.o # 0 /\ p.o = q.o) => p = q
FailedCastKeeps == [][(st'.ret = FALSE /\ h'[Len(h')].op \in {"cast1", "cast2"}) => st'.u = st.u]_vars
NoTransferLoss == [][(h'[Len(h')].op \in {"cast1", "cast2"} /\ st'.ret) =>
   (st'.u.o = 0 /\ st.u.o \in {st'.c1.o, st'.c2.o})]_vars
==============================================================================
