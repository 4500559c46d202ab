------------------------------ MODULE Ownership ------------------------------
\* Shared handles, weak handles and checked transfer of unique ownership.
\* Property V04 (second part).
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

NStrong == 3
NWeak == 2
Strong == 0..(NStrong - 1)
WeakS == 0..(NWeak - 1)
\* st.h[s]: object of a strong handle (0 none); st.w[k]: object a weak handle watches;
\* st.obj: values of shared objects ever made
\* st.u: unique owner slot [o, k]; st.c1, st.c2: owners typed as first / second derived class
None == [o |-> 0, k |-> "none", v |-> 0]
Start0 == [h |-> [s \in Strong |-> 0], w |-> [s \in WeakS |-> 0], obj |-> <<>>,
           u |-> None, c1 |-> None, c2 |-> None, n |-> 0, ret |-> TRUE]

HeldBy(st, o) == {s \in Strong : st.h[s] = o}
LiveShared(st) == {st.h[s] : s \in Strong} \ {0}
LiveUnique(st) == Cardinality({x \in {"u", "c1", "c2"} :
   (CASE x = "u" -> st.u.o [] x = "c1" -> st.c1.o [] OTHER -> st.c2.o) # 0})

NewObj(st, s, v) == [st EXCEPT !.obj = Append(@, v), !.h[s] = Len(st.obj) + 1, !.ret = TRUE]
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.ret = TRUE] IN
  CASE o.op = "shared" -> NewObj(st, o.s, o.v)
    [] o.op = "copyh" -> [st EXCEPT !.h[o.d] = st.h[o.s]]
    [] o.op \in {"self", "cself"} ->
         IF st.h[o.s] = 0 THEN [st EXCEPT !.ret = FALSE] ELSE [st EXCEPT !.h[o.d] = st.h[o.s]]
    [] o.op = "clone" ->
         IF st.h[o.s] = 0 THEN [st EXCEPT !.ret = FALSE] ELSE NewObj(st, o.d, st.obj[st.h[o.s]])
    [] o.op = "reset" -> [st EXCEPT !.h[o.s] = 0]
    [] o.op = "set" -> IF st.h[o.s] = 0 THEN [st EXCEPT !.ret = FALSE] ELSE [st EXCEPT !.obj[st.h[o.s]] = o.v]
    [] o.op = "weak" -> IF st.h[o.s] = 0 THEN [st EXCEPT !.ret = FALSE] ELSE [st EXCEPT !.w[o.d] = st.h[o.s]]
    [] o.op = "lock" -> [st EXCEPT !.h[o.d] = IF st.w[o.s] \in LiveShared(st) THEN st.w[o.s] ELSE 0]
    [] o.op = "newu" -> [st EXCEPT !.n = @ + 1, !.u = [o |-> st.n + 1, k |-> o.k, v |-> o.v]]
    [] o.op = "cast1" -> IF st.u.k \in {"d1", "d3"} THEN [st EXCEPT !.c1 = st.u, !.u = None] ELSE [st EXCEPT !.c1 = None, !.ret = FALSE]
    [] o.op = "cast2" -> IF st.u.k \in {"d2", "d3"} THEN [st EXCEPT !.c2 = st.u, !.u = None] ELSE [st EXCEPT !.c2 = None, !.ret = FALSE]
    [] o.op = "dropc" -> [st EXCEPT !.c1 = None, !.c2 = None]

ObsU(x) == [full |-> x.o # 0, v |-> x.v]
Obs(st) ==
  [ret |-> st.ret,
   alive |-> Cardinality(LiveShared(st)),
   ualive |-> LiveUnique(st),
   dead |-> st.n - LiveUnique(st),
   h |-> [i \in 1..NStrong |-> LET o == st.h[i - 1] IN
            [full |-> o # 0, v |-> IF o = 0 THEN -1 ELSE st.obj[o],
             uses |-> IF o = 0 THEN 0 ELSE Cardinality(HeldBy(st, o)),
             same |-> [j \in 1..NStrong |-> st.h[j - 1] = o]]],
   w |-> [i \in 1..NWeak |-> [expired |-> st.w[i - 1] \notin LiveShared(st)]],
   u |-> ObsU(st.u), c1 |-> ObsU(st.c1), c2 |-> ObsU(st.c2)]

SharedOps == UNION {
  [op : {"shared"}, s : Strong, v : {1, 2}],
  [op : {"copyh", "self", "cself", "clone"}, d : Strong, s : Strong],
  [op : {"reset"}, s : Strong], [op : {"set"}, s : Strong, v : {3}],
  [op : {"weak"}, d : WeakS, s : Strong], [op : {"lock"}, d : Strong, s : WeakS]}
UniqueOps == [op : {"newu"}, k : {"base", "d1", "d2", "d3"}, v : {1, 2}] \cup [op : {"cast1", "cast2", "dropc"}]
Ops == SharedOps \cup UniqueOps
==============================================================================
