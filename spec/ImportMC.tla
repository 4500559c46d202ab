------------------------------ MODULE ImportMC ------------------------------
\* File systems grown entry by entry, and imports of them.
EXTENDS Import, Json
CONSTANTS MaxOps, EmitMode, Part
VARIABLES F, n, o
vars == <<F, n, o>>
Dirs == {<<"r">>, <<"r", "a">>, <<"r", "b">>, <<"r", "a", "c">>, <<"inc">>}
DirsOf(f) == {e.p : e \in {x \in Range(f) : x.k = "dir"}}
Files == {"x.org", "y.org", "n.ORG", "t.txt"}
Ups(k) == [j \in 1..k |-> ".."]
\* ways to write a place from a directory: from the top, or relative to the directory
Ways(from, to) == {[abs |-> TRUE, to |-> to], [abs |-> FALSE, to |-> LET m == Shared(to, from) r == Ups(Len(from) - m) \o SubSeq(to, m + 1, Len(to)) IN IF r = <<>> THEN <<".">> ELSE r]}
Places(f) == {e.p : e \in Range(f)} \cup {<<"r", "x.org">>, <<"r", "b">>, <<"nowhere">>}
\* through a link as well
Through(f) == UNION {{Append(l.p, x) : x \in {"x.org", "y.org", "l"}} : l \in {e \in Range(f) : e.k = "link"}}
Targets(f, from) == UNION {Ways(from, q) : q \in Places(f) \cup Through(f)} \cup {[abs |-> FALSE, to |-> <<"..", "r", "x.org">>], [abs |-> FALSE, to |-> <<".", "y.org">>], [abs |-> FALSE, to |-> <<"..">>], [abs |-> FALSE, to |-> <<"y.org">>]}
Word(f) == "w" \o ToString(Len(f))
Some(S) == IF EmitMode = "depth" THEN {RandomElement(S)} ELSE S
AddDir == \E p \in Some(Dirs) : Here(F, p) = {} /\ (Up(p) = <<>> \/ IsAt(F, Up(p), "dir")) /\ F' = Append(F, [p |-> p, k |-> "dir", to |-> [abs |-> FALSE, to |-> <<>>], inc |-> <<>>, t |-> ""])
AddFile == \E d \in Some(DirsOf(F)), x \in Some(Files) : Here(F, Append(d, x)) = {} /\ F' = Append(F, [p |-> Append(d, x), k |-> "file", to |-> [abs |-> FALSE, to |-> <<>>], inc |-> <<>>, t |-> Word(F)])
AddLink == \E d \in Some(DirsOf(F)), x \in Some({"l", "m", "z.org"}) : Here(F, Append(d, x)) = {} /\ \E t \in Some(Targets(F, d)) : F' = Append(F, [p |-> Append(d, x), k |-> "link", to |-> t, inc |-> <<>>, t |-> ""])
AddRef == LET docs == {k \in DOMAIN F : F[k].k = "file" /\ Document(Last(F[k].p)) /\ Len(F[k].inc) < 3} IN
  docs # {} /\ \E k \in Some(docs) : \E t \in Some(Targets(F, Up(F[k].p))), w \in Some({"org", "src", "example", "export", "link"}) :
    /\ (w \in {"src", "example", "export"} => KindAt(F, TargetReal([fs |-> F, find |-> <<"inc">>], F[k].p, t)) \in {"file", "none"}) 
    /\ (w \in {"src", "example", "export"} => (\A e \in Range(F) : Real(F, Up(F[k].p), t) = e.p => e.inc = <<>>))
    /\ F' = [F EXCEPT ![k].inc = Append(@, [k |-> w, to |-> t])]
Base == [how |-> "dir", start |-> <<"r">>, rel |-> FALSE, sorted |-> TRUE, plain |-> FALSE, skip |-> <<>>, find |-> <<>>]
Asks(f) == {Base, [Base EXCEPT !.sorted = FALSE, !.plain = TRUE], [Base EXCEPT !.rel = TRUE]}
   \cup {[Base EXCEPT !.skip = <<p>>] : p \in {e.p : e \in Range(f)}}
   \cup {[Base EXCEPT !.find = <<"inc">>]}
   \cup {[Base EXCEPT !.start = s] : s \in {<<"r", "">>, <<"r", ".">>} \cup {e.p : e \in Range(f)}}
   \cup {[Base EXCEPT !.how = "file", !.start = p, !.rel = b] : p \in {e.p : e \in {x \in Range(f) : x.k = "file" /\ Document(Last(x.p))}}, b \in BOOLEAN}
Full(f, a) == [op |-> "import", fs |-> f, how |-> a.how, start |-> a.start, rel |-> a.rel, sorted |-> a.sorted, plain |-> a.plain, skip |-> a.skip, find |-> a.find]
\* what a document pulls in as a block must not change later: it is recorded by its text
Sound(f) == \A e \in Range(f) : \A x \in Range(e.inc) : x.k \in {"src", "example", "export"} =>
   (LET q == TargetReal([fs |-> f, find |-> <<"inc">>], e.p, x.to) IN q = Lost \/ (KindAt(f, q) = "file" /\ Entry(f, q).inc = <<>>))
Emit(f) == IF EmitMode = "all" /\ Sound(f) THEN \A a \in Asks(f) : PrintT("BEH|" \o ToJson(<<Full(f, a)>>)) ELSE TRUE
Init == n = 0 /\ F = <<[p |-> <<"r">>, k |-> "dir", to |-> [abs |-> FALSE, to |-> <<>>], inc |-> <<>>, t |-> ""], [p |-> <<"r", "x.org">>, k |-> "file", to |-> [abs |-> FALSE, to |-> <<>>], inc |-> <<>>, t |-> "w0"]>>
        /\ o = Full(F, Base)
Step == IF EmitMode = "depth" THEN LET w == RandomElement(1..8) IN IF w = 1 THEN AddDir ELSE IF w \in {2, 3} THEN AddFile ELSE IF w \in {4, 5} THEN AddLink ELSE AddRef
        ELSE AddDir \/ AddFile \/ AddLink \/ AddRef
Next == /\ n < MaxOps /\ n' = n + 1 /\ (Step \/ (EmitMode = "depth" /\ F' = F)) /\ Emit(F')
        /\ o' = Full(F', CHOOSE a \in Some(Asks(F')) : TRUE)
View == F
EmitInv == IF EmitMode = "depth" /\ n = MaxOps /\ Sound(F) THEN PrintT("BEH|" \o ToJson(<<o>>)) ELSE TRUE
\* whatever is reachable is imported, once, and nothing else
OnceFor(O) ==
  LET out == Imported(O)
      docs == {p \in Reach(O, {Start(O)}) : KindAt(F, p) = "file" /\ Document(Last(p)) /\ (p \notin Range(O.skip) \/ (O.how = "file" /\ p = Start(O)))} IN
    Docs(out) = docs /\ DocCount(out) = Cardinality(docs) /\ Nested(O, out)
Once == Sound(F) => OnceFor(o)
OnceAll == Sound(F) => \A a \in {Base} \cup {[Base EXCEPT !.how = "file", !.start = p] : p \in {e.p : e \in {x \in Range(F) : x.k = "file" /\ Document(Last(x.p))}}} : OnceFor(Full(F, a))
=============================================================================
