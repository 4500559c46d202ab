-------------------------------- MODULE Logging --------------------------------
\* Log records, sinks with filters, sink scopes, nesting depth, record builders.
\* A text is a sequence of byte values.  Property L01.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Range(q) == {q[k] : k \in 1..Len(q)}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
RECURSIVE Digits(_)
Digits(n) == IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Blank(n) == [k \in 1..(IF n < 0 THEN 0 ELSE n) |-> 32]
RECURSIVE Split(_, _)
Split(s, cur) == IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                 ELSE IF s[1] = 10 THEN <<cur>> \o Split(Tail(s), <<>>) ELSE Split(Tail(s), Append(cur, s[1]))

\* ---- a record is assembled by a sequence of steps; -1 = not set
Blank0 == [m |-> <<>>, sev |-> 0, cat |-> <<>>, dep |-> -1, line |-> 0, file |-> -1, fn |-> -1, sc |-> <<>>, id |-> -1, meta |-> [a |-> -1, b |-> -1], set |-> FALSE]
Step(r, s) ==
  CASE s.k = "msg" -> [r EXCEPT !.m = @ \o s.t]
    [] s.k = "int" -> [r EXCEPT !.m = @ \o Digits(s.n)]
    [] s.k = "pre" -> [r EXCEPT !.m = s.t \o @]
    [] s.k = "space" -> IF r.m = <<>> \/ r.m[Len(r.m)] = 32 THEN r ELSE [r EXCEPT !.m = Append(@, 32)]
    [] s.k = "fmt" -> [r EXCEPT !.m = @ \o <<60>> \o s.t \o <<62>>]
    [] s.k = "sev" -> [r EXCEPT !.sev = s.n]
    [] s.k = "cat" -> [r EXCEPT !.cat = s.t]
    [] s.k = "depth" -> [r EXCEPT !.dep = s.n]
    [] s.k = "site" -> [r EXCEPT !.line = s.n, !.file = s.f, !.fn = s.g]
    [] s.k = "scope" -> [r EXCEPT !.sc = Append(@, s.t)]
    [] s.k = "scopes" -> [r EXCEPT !.sc = <<s.t>>]
    [] s.k = "id" -> [r EXCEPT !.id = s.n]
    [] s.k = "meta" -> IF s.n = 0 THEN [r EXCEPT !.meta.a = s.v, !.set = TRUE] ELSE [r EXCEPT !.meta.b = s.v, !.set = TRUE]
RECURSIVE Fold(_, _)
Fold(r, q) == IF q = <<>> THEN r ELSE Fold(Step(r, q[1]), Tail(q))
Record(q) == Fold(Blank0, q)

\* ---- text form: indentation by depth, message, metadata and call site
FileName == <<<<102, 46, 99>>, <<103>>>>           \* dir/f.c and g, shown without directories
FnName == <<<<109, 97, 105, 110>>, <<120>>>>
MetaText(r) ==
  LET one(k, v) == <<34, k, 34, 58>> \o Digits(v)
      p == (IF r.meta.a # -1 THEN <<one(97, r.meta.a)>> ELSE <<>>) \o (IF r.meta.b # -1 THEN <<one(98, r.meta.b)>> ELSE <<>>)
  IN <<123>> \o (IF Len(p) = 2 THEN p[1] \o <<44>> \o p[2] ELSE Flat(p)) \o <<125>>
Trail(r, gap) ==
  (IF r.set THEN gap \o MetaText(r) ELSE <<>>) \o
  (IF r.file # -1 THEN gap \o FileName[r.file + 1] \o (IF r.fn # -1 THEN <<58>> \o FnName[r.fn + 1] ELSE <<>>) \o <<58>> \o Digits(r.line) ELSE <<>>)
Text(r, depth) ==
  LET ind == 2 * (IF r.dep # -1 THEN r.dep ELSE depth) IN
  (IF 10 \in Range(r.m)
   THEN LET L == Split(r.m, <<>>) IN Blank(ind) \o Trail(r, <<>>) \o Flat([k \in 1..Len(L) |-> <<10>> \o Blank(ind + 2) \o L[k]])
   ELSE Blank(ind) \o r.m \o Trail(r, <<32>>)) \o <<10>>

\* ---- sinks: q = stack of sinks (a sink may be pushed twice), one filter per sink
Accepts(f, r) ==
  CASE f.k = "all" -> TRUE
    [] f.k = "none" -> FALSE
    [] f.k = "sev" -> r.sev >= f.n
    [] f.k = "notsev" -> r.sev # f.n
    [] f.k = "cat" -> r.cat = f.t
    [] f.k = "empty" -> r.m # <<>>
    [] f.k = "throw" -> TRUE                     \* a filter that fails rejects nothing
NoScope == [on |-> FALSE, live |-> FALSE, snap |-> <<>>]
Start == [q |-> <<>>, kind |-> <<>>, f |-> <<>>, depth |-> 0, sc |-> [k \in 1..3 |-> NoScope],
          seen |-> [k \in 1..2 |-> {}], last |-> [k \in 1..2 |-> <<>>], ret |-> 0, d |-> <<>>]
Seen(st, r, s) == IF st.kind[s] = "mem" THEN [rec |-> r, at |-> st.depth] ELSE [text |-> Text(r, st.depth)]
\* delivered to every sink that is active and accepts, once
Deliver(st, r) == [st EXCEPT !.d = [s \in 1..Len(st.kind) |-> IF s \in Range(st.q) /\ Accepts(st.f[s], r)
                                                              THEN Append(IF s <= Len(@) THEN @[s] ELSE <<>>, Seen(st, r, s))
                                                              ELSE IF s <= Len(@) THEN @[s] ELSE <<>>]]
Close(st, k) == IF st.sc[k].on THEN [st EXCEPT !.sc[k] = NoScope, !.q = IF st.sc[k].live THEN st.sc[k].snap ELSE @] ELSE st
Key(r) == [r EXCEPT !.set = FALSE]
Emit(st, o) ==
  LET r == Record(o.rec) IN
  CASE o.how \in {"rec", "bld", "bmove"} -> Deliver(st, r)
    [] o.how \in {"released", "quiet"} -> st           \* a released builder, a finalizer that drops the record
    [] o.how \in {"fin", "finmove"} -> IF r.sev >= 2 THEN Deliver(st, r) ELSE st
    [] o.how = "uniq" -> LET b == IF o.reset THEN {} ELSE st.seen[o.n] IN
         IF Key(r) \in b THEN [st EXCEPT !.seen[o.n] = b]
         ELSE [Deliver(st, r) EXCEPT !.seen[o.n] = b \cup {Key(r)}]
    [] o.how = "chg" -> LET b == IF o.reset THEN <<>> ELSE st.last[o.n] IN
         IF b = <<Key(r)>> THEN [st EXCEPT !.last[o.n] = b]
         ELSE [Deliver(st, r) EXCEPT !.last[o.n] = <<Key(r)>>]
RECURSIVE Body(_, _, _)
Ret(st, v) == [st EXCEPT !.ret = v]
Simple(st, o) ==
  CASE o.op = "push" -> [st EXCEPT !.kind = Append(@, o.k), !.f = Append(@, [k |-> "all"]), !.q = Append(@, Len(st.kind) + 1)]
    [] o.op = "again" -> IF o.s <= Len(st.kind) THEN [st EXCEPT !.q = Append(@, o.s)] ELSE st
    [] o.op = "filter" -> IF o.s <= Len(st.kind) THEN [st EXCEPT !.f[o.s] = o.f] ELSE st
    [] o.op = "clear" -> [st EXCEPT !.q = <<>>]
    [] o.op = "open" -> LET c == Close(st, o.n) IN [c EXCEPT !.sc[o.n] = [on |-> TRUE, live |-> TRUE, snap |-> c.q]]
    [] o.op = "opendrop" -> LET c == Close(st, o.n) IN [c EXCEPT !.sc[o.n] = [on |-> TRUE, live |-> TRUE, snap |-> c.q], !.q = <<>>]
    [] o.op = "openpush" -> LET c == Close(st, o.n) IN     \* a scope around a new sink
         [c EXCEPT !.sc[o.n] = [on |-> TRUE, live |-> TRUE, snap |-> c.q], !.kind = Append(@, "mem"), !.f = Append(@, [k |-> "all"]), !.q = Append(@, Len(c.kind) + 1)]
    [] o.op = "drop" -> IF st.sc[o.n].on THEN [st EXCEPT !.q = <<>>] ELSE st
    [] o.op = "close" -> Close(st, o.n)
    \* the receiver takes over what the source would have restored
    [] o.op = "move" -> IF o.n # o.to /\ st.sc[o.n].on
                        THEN [st EXCEPT !.sc[o.to] = st.sc[o.n], !.sc[o.n].live = FALSE, !.sc[o.n].snap = <<>>] ELSE st
    [] o.op = "deeper" -> [st EXCEPT !.depth = @ + 1]
    [] o.op = "shallower" -> IF st.depth > 0 THEN [st EXCEPT !.depth = @ - 1] ELSE st
    [] o.op = "emit" -> Emit(st, o)
    [] o.op = "macro" -> Deliver(st, [Blank0 EXCEPT !.m = o.t, !.sev = o.n, !.line = 7, !.file = 1, !.fn = 1])
    [] o.op = "last" -> Ret(st, IF st.q = <<>> THEN 0 ELSE st.q[Len(st.q)])
\* a block of code: its scopes and depths end with it, however it is left
Body(st, b, k) ==
  IF k > Len(b) THEN st
  ELSE IF b[k].op = "lscope" THEN LET e == Body(st, b, k + 1) IN [e EXCEPT !.q = st.q]
  ELSE IF b[k].op = "ldrop" THEN LET e == Body([st EXCEPT !.q = <<>>], b, k + 1) IN [e EXCEPT !.q = st.q]
  ELSE IF b[k].op = "ldepth" THEN LET e == Body([st EXCEPT !.depth = @ + 1], b, k + 1) IN [e EXCEPT !.depth = @ - 1]
  ELSE IF b[k].op = "throw" THEN Ret(st, 1)
  ELSE Body(Simple(st, b[k]), b, k + 1)
Apply(st0, o) ==
  LET st == [st0 EXCEPT !.ret = 0, !.d = <<>>] IN
  IF o.op = "block" THEN Body(st, o.b, 1)
  ELSE Simple(st, o)
Got(st, s) == IF s <= Len(st.d) THEN st.d[s] ELSE <<>>

\* ---- threads logging at the same time: every sink gets each accepted record of each
\* thread once, in the order of that thread.  o.t[j] = messages of thread j
RECURSIVE Merge(_, _)
\* got = <<thread, number>> pairs, want = per thread the numbers still to come
Merge(got, want) == IF got = <<>> THEN \A j \in 1..Len(want) : want[j] = <<>>
                    ELSE LET j == got[1][1] IN
                         /\ j \in 1..Len(want) /\ want[j] # <<>> /\ want[j][1] = got[1][2]
                         /\ Merge(Tail(got), [want EXCEPT ![j] = Tail(@)])
\* record n of a thread has severity n % 6
Wanted(st, o, s) == [j \in 1..Len(o.t) |-> SelectSeq([n \in 1..o.t[j] |-> n], LAMBDA n : Accepts(st.f[s], [Blank0 EXCEPT !.sev = n % 6, !.m = <<1>>]))]
ParOk(st, o, r) == \A s \in 1..Len(st.kind) : Merge(r.d[s], IF s \in Range(st.q) THEN Wanted(st, o, s) ELSE [j \in 1..Len(o.t) |-> <<>>])
===============================================================================
