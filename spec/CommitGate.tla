------------------------------ MODULE CommitGate ------------------------------
\* The gate every commit message has to pass.  A message is a sequence of bytes.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Types  == {"feat", "fix", "docs", "style", "refactor", "test", "chore", "wip", "clean"}
Scopes == {"build", "ci", "cli", "codegen", "cov", "cxx", "debug", "doc", "editor", "ex", "export", "gen", "gui", "hstd", "js", "lex", "mmap", "org", "parse", "py",
           "refl", "repo", "report", "sem", "test"}
SubjectMax == 50
BodyMax    == 75

Letters == "abcdefghijklmnopqrstuvwxyz"
Code(c) == IF c = " " THEN 32 ELSE 96 + (CHOOSE k \in 1..26 : SubSeq(Letters, k, k) = c)
B(s)    == [k \in 1..Len(s) |-> Code(SubSeq(s, k, k))]
TypeWords  == {B(w) : w \in Types}
ScopeWords == {B(w) : w \in Scopes}

LF == 10   CR == 13   HASH == 35   TICK == 96
Blank(c) == c \in {32, 9, 13, 11, 12}
Lower(w) == [k \in 1..Len(w) |-> IF w[k] \in 65..90 THEN w[k] + 32 ELSE w[k]]

\* a line break is LF or CR LF; a line break at the very end starts no further line
RECURSIVE Lines(_, _, _)
Lines(t, p, cur) ==
    IF p > Len(t) THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
    ELSE IF t[p] = CR /\ p < Len(t) /\ t[p + 1] = LF THEN <<cur>> \o Lines(t, p + 2, <<>>)
    ELSE IF t[p] = LF THEN <<cur>> \o Lines(t, p + 1, <<>>)
    ELSE Lines(t, p + 1, Append(cur, t[p]))

IsBlank(l)   == \A k \in 1..Len(l) : Blank(l[k])
FirstInk(l)  == CHOOSE k \in 1..Len(l) : ~Blank(l[k]) /\ \A j \in 1..(k - 1) : Blank(l[j])
IsComment(l) == ~IsBlank(l) /\ l[FirstInk(l)] = HASH
IsFence(l)   == ~IsBlank(l) /\ LET k == FirstInk(l) IN k + 2 <= Len(l) /\ \A j \in k..(k + 2) : l[j] = TICK
NotComment(l) == ~IsComment(l)
Kept(t)      == SelectSeq(Lines(t, 1, <<>>), NotComment)
\* length in characters: continuation bytes do not count
Chars(l) == Cardinality({k \in 1..Len(l) : l[k] \notin 128..191})

RECURSIVE WhileIn(_, _, _)
WhileIn(l, p, S) == IF p <= Len(l) /\ l[p] \in S THEN WhileIn(l, p + 1, S) ELSE p
Alpha == (65..90) \cup (97..122)
Ident == Alpha \cup (48..57) \cup {95, 45}

\* <type>[(<scope>)]: <summary>
Parts(l) ==
    LET te == WhileIn(l, 1, Ident)
        ty == SubSeq(l, 1, te - 1)
        sc == te <= Len(l) /\ l[te] = 40
        se == IF sc THEN WhileIn(l, te + 1, (0..255) \ {41}) ELSE te
        cp == IF sc THEN se + 1 ELSE te
        bp == WhileIn(l, cp + 1, {32, 9})
    IN [ok |-> /\ ty # <<>> /\ ty[1] \in Alpha
               /\ sc => se <= Len(l) /\ se > te + 1
               /\ cp <= Len(l) /\ l[cp] = 58
               /\ bp > cp + 1 /\ bp <= Len(l),
        type |-> Lower(ty), scoped |-> sc, scope |-> IF sc THEN Lower(SubSeq(l, te + 1, se - 1)) ELSE <<>>]

RECURSIVE Body(_, _, _)
Body(ls, k, fenced) ==
    IF k > Len(ls) THEN TRUE
    ELSE IF IsFence(ls[k]) THEN Body(ls, k + 1, ~fenced)
    ELSE (fenced \/ IsBlank(ls[k]) \/ Chars(ls[k]) <= BodyMax) /\ Body(ls, k + 1, fenced)

Merge == <<77, 101, 114, 103, 101, 32>>
Verdict(t) ==
    LET ls  == Kept(t)
        ink == {k \in 1..Len(ls) : ~IsBlank(ls[k])}
    IN IF ink = {} THEN "empty"
       ELSE LET sk == CHOOSE k \in ink : \A j \in ink : k <= j
                s  == ls[sk]
                h  == Parts(s)
            IN IF Len(s) >= 6 /\ SubSeq(s, 1, 6) = Merge THEN "accept"
               ELSE IF Chars(s) > SubjectMax THEN "reject"
               ELSE IF ~h.ok THEN "reject"
               ELSE IF h.type \notin TypeWords THEN "reject"
               ELSE IF h.scoped /\ h.scope \notin ScopeWords THEN "reject"
               ELSE IF sk = Len(ls) \/ ~IsBlank(ls[sk + 1]) THEN "reject"
               ELSE IF \A k \in (sk + 2)..Len(ls) : IsBlank(ls[k]) THEN "reject"
               ELSE IF Body(ls, sk + 2, FALSE) THEN "accept" ELSE "reject"

\* what the committer sees: the message itself is never touched; a rejected one is kept aside byte for byte
Outcome(t) == LET v == Verdict(t)
              IN [v |-> IF v = "empty" THEN "reject" ELSE v, keep |-> TRUE, saved |-> v = "reject",
                  copy |-> IF v = "reject" THEN t ELSE <<>>, files |-> IF v = "reject" THEN 1 ELSE 0]
================================================================================
