----------------------------- MODULE JsonTextMC -----------------------------
\* Exploration of JsonText: every value up to a bound under every layout option.
EXTENDS JsonText
CONSTANTS Deep
Atoms == {Null, [t |-> "b", b |-> TRUE], [t |-> "n", n |-> <<49, 50>>], [t |-> "s", s |-> <<34, 10>>]}
KeySet == {<<97>>, <<97, 34>>, <<92>>}
Widths == {0, 4, 12, 100000}
Indents == {0, 2}
Starts == {0, 3}

Objs(V) == {[t |-> "o", o |-> <<>>]}
           \cup {[t |-> "o", o |-> <<[k |-> k, v |-> v]>>] : k \in KeySet, v \in V}
           \cup {[t |-> "o", o |-> <<[k |-> k1, v |-> v1], [k |-> k2, v |-> v2]>>] :
                   <<k1, k2>> \in {p \in KeySet \X KeySet : LexLess(p[1], p[2])}, v1 \in V, v2 \in V}
Arrs(V) == {[t |-> "a", a |-> <<>>]} \cup {[t |-> "a", a |-> <<v>>] : v \in V}
           \cup {[t |-> "a", a |-> <<v, w>>] : v \in V, w \in V}
V1 == Atoms \cup Objs(Atoms) \cup Arrs(Atoms)
Nest(V) == {[t |-> "o", o |-> <<[k |-> k, v |-> v]>>] : k \in KeySet, v \in V}
           \cup {[t |-> "a", a |-> <<v>>] : v \in V}
Values == IF Deep THEN V1 \cup Nest(V1) \cup {[t |-> "a", a |-> <<v, w>>] : v \in V1, w \in Atoms} ELSE V1
Options == [width : Widths, indent : Indents, start : Starts, stable : BOOLEAN]

VARIABLES val, opt, phase, txt
Init == val \in Values /\ opt \in Options /\ phase = "value" /\ txt = <<>>
DoRender == phase = "value" /\ phase' = "text" /\ txt' = Render(val, opt, opt.start) /\ UNCHANGED <<val, opt>>
DoFilter == phase = "value" /\ phase' = "filtered" /\ opt.width = 0 /\ \E n \in SUBSET KeySet :
              val' = Filter(val, n) /\ txt' = <<n>> /\ UNCHANGED opt
Next == DoRender \/ DoFilter
RendersBack == phase = "text" => RenderOk(val, opt, txt)
FilterExact == phase = "filtered" => (Keys(val) \cap txt[1] = {} /\ Same(Filter(val, txt[1]), val))
\* emission of the bounded inputs
EmitVal == (phase = "value" /\ opt = CHOOSE o \in Options : TRUE) => PrintT("BEH|" \o ToJson(val))
=============================================================================
