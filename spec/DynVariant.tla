---------------------------- MODULE DynVariant ----------------------------
\* Tagged variants: a slot is empty (0) or refers to a shared object, an object
\* has a kind fixed at creation and a value.  Property V01.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NSlots, NKinds, Vals, MaxObj, Depth, EmitMode

Slots == 0..(NSlots - 1)
Kinds == 0..(NKinds - 1)

\* st.slot : slot index -> object id (0 = empty);  st.obj : sequence of [k, v]
Start0 == [slot |-> [s \in Slots |-> 0], obj |-> <<>>, ret |-> TRUE]

SlotOf(st, s) == st.slot[s]
KindOf(st, s) == st.obj[st.slot[s]].k

Make(st, s, k, v) ==
  [st EXCEPT !.obj = Append(@, [k |-> k, v |-> v]),
             !.slot[s] = Len(st.obj) + 1, !.ret = TRUE]
Clear(st, s) == [st EXCEPT !.slot[s] = 0, !.ret = TRUE]
Copy(st, d, s) == [st EXCEPT !.slot[d] = st.slot[s], !.ret = TRUE]
Move(st, d, s) == IF d = s THEN [st EXCEPT !.ret = TRUE]
                  ELSE [st EXCEPT !.slot[d] = st.slot[s], !.slot[s] = 0, !.ret = TRUE]
Swap(st, d, s) == [st EXCEPT !.slot[d] = st.slot[s], !.slot[s] = st.slot[d], !.ret = TRUE]
Set(st, s, k, v) ==
  IF st.slot[s] # 0 /\ KindOf(st, s) = k
  THEN [st EXCEPT !.obj[st.slot[s]].v = v, !.ret = TRUE]
  ELSE [st EXCEPT !.ret = FALSE]
VisitSet(st, s, v) ==
  IF st.slot[s] # 0 THEN [st EXCEPT !.obj[st.slot[s]].v = v, !.ret = TRUE]
  ELSE [st EXCEPT !.ret = FALSE]

Apply(st, o) ==
  CASE o.op \in {"make", "wrap", "fromfac"} -> Make(st, o.s, o.k, o.v)
    [] o.op = "fromidx" -> Make(st, o.s, o.k, 0)
    [] o.op = "clear" -> Clear(st, o.s)
    [] o.op \in {"copy", "clone"} -> Copy(st, o.d, o.s)
    [] o.op = "move" -> Move(st, o.d, o.s)
    [] o.op = "swap" -> Swap(st, o.d, o.s)
    [] o.op = "set" -> Set(st, o.s, o.k, o.v)
    [] o.op = "visitset" -> VisitSet(st, o.s, o.v)

Ops == UNION {
  [op : {"make", "wrap", "fromfac"}, s : Slots, k : Kinds, v : Vals],
  [op : {"fromidx"}, s : Slots, k : Kinds],
  [op : {"clear"}, s : Slots],
  [op : {"copy", "clone", "move", "swap"}, d : Slots, s : Slots],
  [op : {"set"}, s : Slots, k : Kinds, v : Vals],
  [op : {"visitset"}, s : Slots, v : Vals] }

Live(st) == {st.slot[s] : s \in Slots} \ {0}

----------------------------------------------------------------------------
\* What a user can observe of a state
Shown(st, s, k) == IF st.slot[s] # 0 /\ KindOf(st, s) = k
                   THEN (100 + k) * 10 + st.obj[st.slot[s]].v ELSE -1
ObsAlt(st, s, k) ==
  LET x == Shown(st, s, k) IN
  [member |-> x, free |-> x, cfree |-> x, get |-> x, cget |-> x,
   holds |-> x # -1, nul |-> TRUE]
ObsVisit(st, s) ==
  IF st.slot[s] = 0
  THEN [calls |-> 0, kind |-> -1, val |-> -1, thrown |-> TRUE, ret |-> -1, sameobj |-> FALSE]
  ELSE [calls |-> 1, kind |-> KindOf(st, s), val |-> Shown(st, s, KindOf(st, s)),
        thrown |-> FALSE, ret |-> 7 + KindOf(st, s), sameobj |-> TRUE]
ObsSlot(st, s) ==
  [full |-> st.slot[s] # 0, vbe |-> st.slot[s] = 0, null |-> st.slot[s] = 0,
   kind |-> IF st.slot[s] = 0 THEN -1 ELSE KindOf(st, s),
   index |-> IF st.slot[s] = 0 THEN -1 ELSE KindOf(st, s),
   same |-> [i \in 1..4 |-> IF i <= NSlots THEN st.slot[i - 1] = st.slot[s] ELSE st.slot[s] = 0],
   alts |-> [k \in 1..NKinds |-> ObsAlt(st, s, k - 1)],
   visit |-> ObsVisit(st, s)]
Obs(st) == [alive |-> Cardinality(Live(st)), ret |-> st.ret,
            slots |-> [i \in 1..NSlots |-> ObsSlot(st, i - 1)]]

----------------------------------------------------------------------------
\* Exploration: every state within the bound, one behaviour per transition.
VARIABLES st, h
vars == <<st, h>>
Init == st = Start0 /\ h = <<>>
Emit(x) == IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(x)) ELSE TRUE
Next == \E o \in Ops :
  /\ Len(h) < Depth
  /\ o.op \in {"make", "wrap", "fromfac", "fromidx"} => Len(st.obj) < MaxObj
  /\ st' = Apply(st, o)
  /\ h' = Append(h, o)
  /\ Emit(h')
View == st
EmitInv == (EmitMode = "depth" /\ Len(h) = Depth) => PrintT("BEH|" \o ToJson(h))

\* The property on the specification
KindFixed == [][\A i \in 1..Len(st.obj) : st'.obj[i].k = st.obj[i].k]_vars
OneAlternative == \A s \in Slots :
  Cardinality({k \in Kinds : Shown(st, s, k) # -1}) = (IF st.slot[s] = 0 THEN 0 ELSE 1)
OtherSlotsKept == [][\A s \in Slots :
  LET o == h'[Len(h')] IN
  (h' # h /\ s # o.s /\ ("d" \notin DOMAIN o \/ s # o.d)) => st'.slot[s] = st.slot[s]]_vars
============================================================================
