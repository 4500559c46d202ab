------------------------------- MODULE StrOpsMC -------------------------------
EXTENDS StrOps
CONSTANTS MaxLen, EmitMode, Alpha
\* The text is typed one character at a time; every operation is applied to
\* every text reached.  a b separator newline = 97 98 44 10.
VARIABLES s, h
vars == <<s, h>>
Short == {<<>>} \cup {<<x>> : x \in Alpha} \cup {<<x, y>> : x \in Alpha, y \in Alpha}
Cs == {44, 97}
Ix == {[b |-> x, v |-> y] : x \in {TRUE, FALSE}, y \in -1..3}
Ops(t) == {[op |-> "split", s |-> t, c |-> c] : c \in Cs}
  \cup {[op |-> "splits", s |-> t, d |-> d] : d \in Short}
  \cup {[op |-> k, s |-> t, l |-> l] : k \in {"keep", "lstrip", "rstrip"}, l \in {<<>>, <<44>>, <<97, 44>>}}
  \cup {[op |-> "strip", s |-> t, l |-> l, t |-> r] : l \in {<<>>, <<44>>, <<97>>}, r \in {<<>>, <<44>>, <<97, 44>>}}
  \cup {[op |-> k, s |-> t, f |-> f, t |-> r] : k \in {"replace", "replacein"}, f \in {<<>>, <<97>>, <<97, 97>>, <<44>>}, r \in {<<>>, <<97>>, <<97, 97, 44>>}}
  \cup {[op |-> k, s |-> t, n |-> n] : k \in {"repeat", "repeated"}, n \in 0..2}
  \cup {[op |-> "indent", s |-> t, n |-> n, c |-> 46, t |-> p] : n \in 0..2, p \in {<<>>, <<97>>}}
  \cup {[op |-> k, s |-> t, f |-> f] : k \in {"dropp", "drops", "has", "ieq", "plus"}, f \in Short}
  \cup {[op |-> "slice", s |-> t, a |-> a, z |-> z] : a \in Ix, z \in Ix}
  \cup {[op |-> "substr", s |-> t, a |-> a, n |-> n] : a \in 0..3, n \in -1..3}
  \cup {[op |-> "at", s |-> t, a |-> a] : a \in Ix}
  \cup {[op |-> k, s |-> t, n |-> n, c |-> 46] : k \in {"left", "right"}, n \in {0, 2, 5}}
  \cup {[op |-> k, s |-> t] : k \in {"normal", "escl", "vis", "runelen", "runes", "utf8"}}
  \cup {[op |-> "escw", s |-> t, q |-> q] : q \in {TRUE, FALSE}}
Init == s = <<>> /\ h = [op |-> "none"]
Type == h.op = "none" /\ Len(s) < MaxLen /\ \E x \in Alpha : s' = Append(s, x) /\ h' = h
Pick == h.op = "none" /\ \E o \in Ops(s) : h' = o /\ s' = s /\ (IF EmitMode = "all" THEN PrintT("BEH|" \o ToJson(<<o>>)) ELSE TRUE)
Next == Type \/ Pick
\* ---- laws tying the operations together
Lossless == h.op = "none" =>
  /\ \A d \in Short : d # <<>> => Join(d, SplitBy(s, d)) = s
  /\ \A c \in Cs : Cat([k \in 1..Len(Lines(s, c)) |-> Lines(s, c)[k] \o <<c>>]) \in {s, Append(s, c)}
  /\ Cat(Keep(s, {44})) = s /\ Cat(Runes(s, 1)) = s
  /\ \A f \in Short : Replace(s, f, f) = s /\ (f # <<>> => Replace(s, f, <<>>) = Cat(SplitBy(s, f)))
  /\ Strip(s, {44}, {44}) = LStrip(RStrip(s, {44}), {44})
  /\ Replace(Replace(EscW(s, FALSE), <<92, 110>>, <<10>>), <<92, 116>>, <<9>>) = s
Bound == h.op = "none" => /\ \A k \in 1..Len(Keep(s, {44})) : Keep(s, {44})[k] # <<>>
                          /\ \A x \in Rng(SplitBy(s, <<44>>)) : 44 \notin Rng(x)
Filled == h.op = "none" => \A w \in 1..4 : LET q == Fill(Lines(s, 44), w, <<>>, <<>>) IN
   /\ Cat(q) = Lines(s, 44)
   /\ \A k \in 1..Len(q) : Width(q[k]) <= w \/ Len(q[k]) = 1
   /\ \A k \in 1..(Len(q) - 1) : Width(Append(q[k], q[k + 1][1])) > w
   /\ \A k \in 1..Len(q) : Len(q[k]) > 1 => Len(Just(q[k], w)) = w
===============================================================================
