------------------------------- MODULE Import -------------------------------
\* Importing a tree of files: directories are listed, symbolic links followed,
\* documents read together with what they include.  Every place is imported at most
\* once, whichever way it is reached.
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
\* A file system: sequence of [p |-> path, k |-> "dir" | "file" | "link", ...];
\* paths are sequences of names from the top, <<>> is the top itself.
Here(F, p) == {e \in Range(F) : e.p = p}
IsAt(F, p, k) == IF p = <<>> THEN k = "dir" ELSE \E e \in Here(F, p) : e.k = k
Entry(F, p) == CHOOSE e \in Here(F, p) : TRUE
Up(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
Lost == <<"(nowhere)">>
\* where a walk from a resolved place along names leads, links followed; Lost when it
\* leads nowhere or never ends
RECURSIVE Walk(_, _, _, _)
Walk(F, at, names, fuel) ==
  IF fuel = 0 \/ at = Lost THEN Lost
  ELSE IF names = <<>> THEN at
  ELSE LET x == Head(names) rest == Tail(names) IN
    IF ~IsAt(F, at, "dir") THEN Lost
    ELSE IF x = "." \/ x = "" THEN Walk(F, at, rest, fuel)
    ELSE IF x = ".." THEN Walk(F, Up(at), rest, fuel)
    ELSE LET q == Append(at, x) IN
      IF IsAt(F, q, "link") THEN LET t == Entry(F, q).to IN Walk(F, IF t.abs THEN <<>> ELSE at, t.to \o rest, fuel - 1)
      ELSE IF Here(F, q) = {} THEN Lost ELSE Walk(F, q, rest, fuel)
Real(F, at, t) == Walk(F, IF t.abs THEN <<>> ELSE at, t.to, 12)
\* the place a text names: the directory part resolved, the last name kept, so that
\* a link is a place of its own
Place(F, at, t) ==
  IF t.to = <<>> \/ Last(t.to) \in {"", ".", ".."} THEN Real(F, at, t)
  ELSE LET q == Real(F, at, [t EXCEPT !.to = Front(t.to)]) IN IF q = Lost THEN Lost ELSE Append(q, Last(t.to))
Exists(F, at, t) == Real(F, at, t) # Lost
KindAt(F, p) == IF p = Lost THEN "none" ELSE IF p = <<>> THEN "dir" ELSE IF Here(F, p) = {} THEN "none" ELSE Entry(F, p).k
Document(name) == name \in {"x.org", "y.org", "z.org", "n.ORG"}
\* the way from one place to another
RECURSIVE Shared(_, _)
Shared(a, b) == IF a = <<>> \/ b = <<>> THEN 0 ELSE IF Head(a) # Head(b) THEN 0 ELSE 1 + Shared(Tail(a), Tail(b))
Relative(p, from) == LET n == Shared(p, from) r == [k \in 1..(Len(from) - n) |-> ".."] \o SubSeq(p, n + 1, Len(p)) IN IF r = <<>> THEN <<".">> ELSE r
Node(d, k, p, rel, t) == [d |-> d, k |-> k, p |-> p, rel |-> rel, t |-> t]
\* Places in a directory, in the order given by Rank (the alphabetical order of all
\* names in use).
Names == <<"a", "b", "c", "inc", "l", "m", "n.ORG", "r", "t.txt", "x.org", "y.org", "z.org">>
Entries(F, p) == SelectSeq([k \in 1..Len(Names) |-> Append(p, Names[k])], LAMBDA q : Here(F, q) # {})
\* the lines of a file, each followed by ";"; an export block keeps the text as it is
FileLines(k, e) == IF k = "export" THEN e.t \o ";;" ELSE e.t \o ";"
\* Visit: [v |-> places seen, out |-> nodes]
RECURSIVE Visit(_, _, _, _, _, _), VisitAll(_, _, _, _, _, _), Refs(_, _, _, _, _, _, _)
Visit(O, p, root, d, v, fuel) ==
  LET F == O.fs
      nothing == [v |-> v \cup {p}, out |-> <<>>] IN
  IF p = Lost \/ p \in v \/ fuel = 0 THEN [v |-> v, out |-> <<>>]
  ELSE IF p \in Range(O.skip) THEN nothing
  ELSE IF KindAt(F, p) = "link" THEN
    LET t == Entry(F, p).to
        to == Place(F, Up(p), t)
        k == KindAt(F, Real(F, Up(p), t))
        base == IF k = "dir" THEN Real(F, Up(p), t) ELSE Real(F, Up(p), [t EXCEPT !.to = IF @ = <<>> THEN <<>> ELSE Front(@)]) IN
    IF k = "none" THEN nothing
    ELSE LET in == Visit(O, to, base, d + 1, v \cup {p}, fuel - 1) IN
      [in EXCEPT !.out = <<Node(d, IF k = "dir" THEN "DirLink" ELSE "FileLink", base, <<>>, "")>> \o in.out]
  ELSE IF KindAt(F, p) = "dir" THEN
    LET in == VisitAll(O, Entries(F, p), root, d + 1, v \cup {p}, fuel - 1) IN
      [in EXCEPT !.out = <<Node(d, "Dir", p, Relative(p, root), "")>> \o in.out]
  ELSE IF KindAt(F, p) = "file" /\ Document(Last(p)) THEN
    LET in == Refs(O, p, Entry(F, p).inc, root, d + 1, v \cup {p}, fuel - 1) IN
      [in EXCEPT !.out = <<Node(d, "File", p, Relative(p, root), ""), Node(d + 1, "Word", <<>>, <<>>, Entry(F, p).t)>> \o in.out]
  ELSE nothing
VisitAll(O, ps, root, d, v, fuel) ==
  IF ps = <<>> THEN [v |-> v, out |-> <<>>]
  ELSE LET a == Visit(O, Head(ps), root, d, v, fuel) b == VisitAll(O, Tail(ps), root, d, a.v, fuel) IN [b EXCEPT !.out = a.out \o b.out]
\* what the directives and links of a document refer to: looked up from the directory
\* of the document, then in the directory to search
Target(O, p, t) == IF Exists(O.fs, Up(p), t) THEN Place(O.fs, Up(p), t)
                   ELSE IF O.find # <<>> /\ ~t.abs /\ Exists(O.fs, O.find, t) THEN Place(O.fs, O.find, t) ELSE Lost
TargetReal(O, p, t) == IF Exists(O.fs, Up(p), t) THEN Real(O.fs, Up(p), t)
                   ELSE IF O.find # <<>> /\ ~t.abs /\ Exists(O.fs, O.find, t) THEN Real(O.fs, O.find, t) ELSE Lost
Block == [src |-> "Code", example |-> "Example", export |-> "Export"]
Refs(O, p, rs, root, d, v, fuel) ==
  IF rs = <<>> THEN [v |-> v, out |-> <<>>]
  ELSE LET x == Head(rs)
           q == Target(O, p, x.to)
           at == TargetReal(O, p, x.to)
           a == IF x.k = "link" THEN [v |-> v, out |-> <<Node(d, "Link", <<>>, <<>>, "")>> \o (IF q = Lost THEN <<>> ELSE <<Node(d + 1, "File", q, Relative(at, root), "")>>)]
                ELSE IF x.k = "org" THEN
                  LET in == Visit(O, q, root, d + 1, v, fuel) IN
                    [in EXCEPT !.out = <<Node(d, "Include", <<>>, <<>>, "")>> \o (IF q = Lost THEN <<Node(d + 1, "Error", <<>>, <<>>, "")>> ELSE in.out)]
                ELSE [v |-> v, out |-> <<Node(d, "Include", <<>>, <<>>, ""), Node(d + 1, Block[x.k], <<>>, <<>>, IF q = Lost THEN IF x.k = "export" THEN ";" ELSE "" ELSE FileLines(x.k, Entry(O.fs, at)))>>
                                   \o (IF q = Lost THEN <<Node(d + 1, "Error", <<>>, <<>>, "")>> ELSE <<>>)]
           b == Refs(O, p, Tail(rs), root, d, a.v, fuel) IN
       [b EXCEPT !.out = a.out \o b.out]
Fuel(O) == 2 * Len(O.fs) + 4
Start(O) == Place(O.fs, <<>>, [abs |-> FALSE, to |-> O.start])
Imported(O) ==
  LET s == Start(O) IN
  IF O.how = "dir" THEN Visit(O, s, Real(O.fs, <<>>, [abs |-> FALSE, to |-> O.start]), 0, {}, Fuel(O)).out
  ELSE \* a single document: read whatever the filter or its name say
       LET in == Refs(O, s, Entry(O.fs, s).inc, Up(s), 1, {s}, Fuel(O)) IN
       <<Node(0, "File", s, Relative(s, Up(s)), ""), Node(1, "Word", <<>>, <<>>, Entry(O.fs, s).t)>> \o in.out
\* documents among the nodes: a file with its text
Docs(out) == {out[k].p : k \in {j \in 1..(Len(out) - 1) : out[j].k = "File" /\ out[j + 1].k = "Word" /\ out[j + 1].d = out[j].d + 1}}
DocCount(out) == Cardinality({j \in 1..(Len(out) - 1) : out[j].k = "File" /\ out[j + 1].k = "Word" /\ out[j + 1].d = out[j].d + 1})
\* Places reachable from a set of places, without regard to order.
Onward(O, p) ==
  LET F == O.fs IN
  IF p \in Range(O.skip) THEN {}
  ELSE IF KindAt(F, p) = "dir" THEN Range(Entries(F, p))
  ELSE IF KindAt(F, p) = "link" THEN (IF KindAt(F, Real(F, Up(p), Entry(F, p).to)) = "none" THEN {} ELSE {Place(F, Up(p), Entry(F, p).to)})
  ELSE IF KindAt(F, p) = "file" /\ (Document(Last(p)) \/ (O.how = "file" /\ p = Start(O))) THEN {Target(O, p, Entry(F, p).inc[k].to) : k \in {j \in DOMAIN Entry(F, p).inc : Entry(F, p).inc[j].k = "org"}}
  ELSE {}
RECURSIVE Reach(_, _)
Reach(O, ps) == LET more == UNION {Onward(O, p) : p \in ps} \ (ps \cup {Lost}) IN IF more = {} THEN ps ELSE Reach(O, ps \cup more)
\* the parent node of the k-th node
Above(out, k) == IF out[k].d = 0 THEN 0 ELSE CHOOSE j \in 1..(k - 1) : out[j].d = out[k].d - 1 /\ \A i \in (j + 1)..(k - 1) : out[i].d >= out[k].d
\* Every node lies where the tree says it does.
Nested(O, out) == \A k \in 2..Len(out) :
  LET up == out[Above(out, k)] IN
  /\ out[k].k \in {"Dir", "File"} /\ up.k = "Dir" => Up(out[k].p) = up.p
  /\ out[k].k = "Dir" /\ up.k = "DirLink" => out[k].p = up.p
  /\ out[k].k = "File" /\ up.k = "FileLink" => Up(out[k].p) = up.p
  /\ out[k].k = "Word" => up.k = "File" /\ out[k].t = Entry(O.fs, up.p).t
=============================================================================
