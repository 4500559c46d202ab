------------------------------ MODULE RangeIndex ------------------------------
\* Point queries on a set of (possibly equal, nested, touching) inclusive
\* ranges, and the sweep that cuts a sequence into maximal annotated segments.
\* Property C04.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Inside(r, p) == r[1] <= p /\ p <= r[2]
\* indices (from 0) of the stored ranges containing the point
Covering(rs, p) == {k \in 0..(Len(rs) - 1) : Inside(rs[k + 1], p)}

\* groups: <<[kind, segs: <<<<kind, first, last>>, ..>>], ..>>
\* A tag is the group kind with the bag of kinds covering the point; a bag is
\* given as the ordered sequence of its elements.
Kinds(g, p) == LET I == {k \in 1..Len(g.segs) : Inside(<<g.segs[k][2], g.segs[k][3]>>, p)}
                   Cnt(v) == Cardinality({k \in I : g.segs[k][1] = v})
                   Vs == {g.segs[k][1] : k \in I}
               IN [v \in Vs |-> Cnt(v)]
Tags(gs, p) == {<<gs[k].kind, Kinds(gs[k], p)>> : k \in {j \in 1..Len(gs) : DOMAIN Kinds(gs[j], p) # {}}}

\* declarative: the maximal runs of equal, non-empty tag sets
Runs(gs, first, last) ==
  {r \in {<<f, l>> : f \in first..last, l \in first..last} :
     /\ r[1] <= r[2] /\ Tags(gs, r[1]) # {}
     /\ \A p \in r[1]..r[2] : Tags(gs, p) = Tags(gs, r[1])
     /\ (r[1] = first \/ Tags(gs, r[1] - 1) # Tags(gs, r[1]))
     /\ (r[2] = last \/ Tags(gs, r[2] + 1) # Tags(gs, r[1]))}

\* the sweep: position, start of the open run (or none), finished segments
Sweep0(first) == [p |-> first, open |-> <<>>, out |-> <<>>]
Close(gs, w) == IF w.open = <<>> THEN w.out ELSE Append(w.out, <<w.open[1], w.p - 1, Tags(gs, w.open[1])>>)
Step(gs, w) ==
  LET t == Tags(gs, w.p) IN
  IF w.open # <<>> /\ t = Tags(gs, w.open[1]) THEN [w EXCEPT !.p = @ + 1]
  ELSE [p |-> w.p + 1, open |-> IF t = {} THEN <<>> ELSE <<w.p>>, out |-> Close(gs, w)]
RECURSIVE SweepTo(_, _, _)
SweepTo(gs, w, last) == IF w.p > last THEN Close(gs, w) ELSE SweepTo(gs, Step(gs, w), last)
Segments(gs, first, last) == SweepTo(gs, Sweep0(first), last)
===============================================================================
