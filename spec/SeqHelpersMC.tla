------------------------------ MODULE SeqHelpersMC ------------------------------
\* Mode "list": every list up to MaxLen with every predicate.  Mode "walk": the
\* walker on every object graph of MaxLen nodes.
EXTENDS SeqHelpers
CONSTANTS MaxLen, EmitMode, Mode
VARIABLES l, p, e, w, root
vars == <<l, p, e, w, root>>
Vals == 0..2
Graphs == [1..MaxLen -> UNION {[1..k -> 1..MaxLen] : k \in 0..2}]
InitL == l = <<>> /\ p \in SUBSET Vals /\ e = <<>> /\ w = 0 /\ root = 0
NextL == Len(l) < MaxLen /\ \E v \in Vals : l' = Append(l, v) /\ UNCHANGED <<p, e, w, root>>
InitW == l = <<>> /\ p = {} /\ e \in Graphs /\ root = 1 /\ w = Walk0(1)
NextW == ~WDone(w) /\ w' = WStep(w, e) /\ UNCHANGED <<l, p, e, root>>
Init == IF Mode = "list" THEN InitL ELSE InitW
Next == IF Mode = "list" THEN NextL ELSE NextW
RECURSIVE Elems(_)
Elems(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Elems(S \ {x})
Emit == IF EmitMode = "none" THEN TRUE
        ELSE IF Mode = "list" THEN PrintT("BEH|" \o ToJson([l |-> l, p |-> Elems(p)]))
        ELSE IF WDone(w) THEN PrintT("BEH|" \o ToJson([e |-> e])) ELSE TRUE

Range(s) == {s[k] : k \in 1..Len(s)}
Flat[s \in Seq(Seq(Nat))] == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat[Tail(s)]
RECURSIVE FlatR(_)
FlatR(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlatR(Tail(s))
\* trimming both ends is trimming one and then the other; nothing selected stays at an end
TrimOk == Mode = "list" => LET b == TrimB(l, p) IN
            /\ Range(b) \subseteq Range(TrimL(l, p)) \cap Range(TrimR(l, p))
            /\ b # <<>> => l[b[1]] \notin p /\ l[b[Len(b)]] \notin p
            /\ \A k \in 1..Len(l) : k \notin Range(b) => l[k] \in p \/ b = <<>>
            /\ TrimL(l, p) = TrimB(l, p) \o From((IF b = <<>> THEN SkipL(l, p, 1) ELSE b[Len(b)] + 1), Len(l))
\* partitions hold exactly the elements not selected, in order, none empty
PartOk == Mode = "list" => LET q == Part(l, p, 1, <<>>)
                               Out(k) == l[k] \notin p
                           IN FlatR(q) = SelectSeq(Idx(l), Out) /\ \A k \in 1..Len(q) : q[k] # <<>>
\* every reachable object is opened once; the stack is empty at the end
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {Range(e[x]) : x \in S} IN IF T = S THEN S ELSE Reach(T)
WalkOk == Mode = "walk" => /\ \A a, b \in 1..Len(w.post) : a # b => w.post[a][1] # w.post[b][1]
                           /\ WDone(w) => {w.post[k][1] : k \in 1..Len(w.post)} = Reach({root}) /\ {w.pre[k][1] : k \in 1..Len(w.pre)} = Reach({root})
                           /\ \A a, b \in 1..Len(w.stack) : a # b => w.stack[a][1] # w.stack[b][1]
Ends == <>(Mode = "walk" => WDone(w))
Fair == Init /\ [][Next]_vars /\ WF_vars(Next)
================================================================================
