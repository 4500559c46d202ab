------------------------------- MODULE Numeric -------------------------------
\* Ordinal domains, saturating arithmetic, bit masks, pointer ranges and textual
\* dumps over exact integers.  Wide integers are [neg, d] with d little-endian
\* digits in base 65536 (TLC integers have 32 bits); unsigned words are also
\* used as bit sequences, least significant bit first.  Property V06.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
B == 65536
Dig(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MagLess(_, _, _)
MagLess(x, y, i) == IF i = 0 THEN FALSE
                    ELSE IF Dig(x, i) # Dig(y, i) THEN Dig(x, i) < Dig(y, i) ELSE MagLess(x, y, i - 1)
MLt(x, y) == MagLess(x, y, Max2(Len(x), Len(y)))
RECURSIVE MAddAt(_, _, _, _)
MAddAt(x, y, i, c) == IF i > Max2(Len(x), Len(y)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                      ELSE LET t == Dig(x, i) + Dig(y, i) + c IN <<t % B>> \o MAddAt(x, y, i + 1, t \div B)
MAdd(x, y) == Trim(MAddAt(x, y, 1, 0))
RECURSIVE MSubAt(_, _, _, _)
MSubAt(x, y, i, b) == IF i > Len(x) THEN <<>>
                      ELSE LET t == x[i] - Dig(y, i) - b IN <<(t + B) % B>> \o MSubAt(x, y, i + 1, IF t < 0 THEN 1 ELSE 0)
MSub(x, y) == Trim(MSubAt(x, y, 1, 0))     \* x >= y
W(neg, d) == LET t == Trim(d) IN [neg |-> neg /\ t # <<>>, d |-> t]
Norm(x) == W(x.neg, x.d)
Neg(x) == W(~x.neg, x.d)
Add(x, y) == IF x.neg = y.neg THEN W(x.neg, MAdd(x.d, y.d))
             ELSE IF MLt(x.d, y.d) THEN W(y.neg, MSub(y.d, x.d)) ELSE W(x.neg, MSub(x.d, y.d))
Sub(x, y) == Add(x, Neg(y))
Lt(x, y) == IF x.neg # y.neg THEN x.neg ELSE IF x.neg THEN MLt(y.d, x.d) ELSE MLt(x.d, y.d)
One == W(FALSE, <<1>>)
Zero == W(FALSE, <<>>)
Small(n) == W(n < 0, IF n < 0 THEN <<(0 - n) % B, (0 - n) \div B>> ELSE <<n % B, n \div B>>)

\* types: [bits, sgn]
Pow2(b) == W(FALSE, [i \in 1..((b \div 16) + 1) |-> IF i = (b \div 16) + 1 THEN 2 ^ (b % 16) ELSE 0])
High(t) == Sub(Pow2(IF t.sgn THEN t.bits - 1 ELSE t.bits), One)
Low(t) == IF t.sgn THEN Neg(Pow2(t.bits - 1)) ELSE Zero
Clamp(t, x) == IF Lt(x, Low(t)) THEN Low(t) ELSE IF Lt(High(t), x) THEN High(t) ELSE x
In(t, x) == Clamp(t, x) = x
SatAdd(t, a, b) == Clamp(t, Add(a, b))
SatSub(t, a, b) == Clamp(t, Sub(a, b))

\* domain record [kind, lo, hi, bits...] reduced to its bounds and ordinal origin
DomLow(dm) == Norm(dm.lo)
DomHigh(dm) == Norm(dm.hi)
Ord(dm, x) == IF dm.rel THEN Sub(x, Norm(dm.lo)) ELSE x
Succ(x) == Add(x, One)
Prev(x) == Sub(x, One)

\* bit sequences
And(a, b) == [i \in 1..Len(a) |-> IF a[i] = 1 /\ b[i] = 1 THEN 1 ELSE 0]
AndNot(a, b) == [i \in 1..Len(a) |-> IF a[i] = 1 /\ b[i] = 0 THEN 1 ELSE 0]
Or(a, b) == [i \in 1..Len(a) |-> IF a[i] = 1 \/ b[i] = 1 THEN 1 ELSE 0]
Shr(a, k) == [i \in 1..Len(a) |-> IF i + k <= Len(a) THEN a[i + k] ELSE 0]
MaskedEquals(a, m, v) == And(a, m) = v
AssignMasked(a, m, v) == [i \in 1..Len(a) |-> IF m[i] = 1 THEN v[i] ELSE a[i]]
WithoutMasked(a, m) == AndNot(a, m)
BitsRight(a, m, k) == Shr(And(a, m), Len(a) - k)

\* textual dumps: characters as codes
HexCode(x) == IF x < 10 THEN 48 + x ELSE 55 + x
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Digits(d, per, base) == Trim([i \in 1..(Len(d) * per) |-> (d[((i - 1) \div per) + 1] \div (base ^ ((i - 1) % per))) % base])
Dump(x, per, base, width) ==
  LET q == Digits(x.d, per, base)
      sig == IF q = <<>> THEN <<0>> ELSE q
      n == Max2(Len(sig), width - (IF x.neg THEN 1 ELSE 0)) IN
  (IF x.neg THEN <<45>> ELSE <<>>) \o [i \in 1..n |-> HexCode(Dig(sig, n + 1 - i))]
Hex(t, x) == Dump(x, 4, 16, t.bits \div 4)
Bin(t, x) == Dump(x, 16, 2, t.bits)

RECURSIVE Join(_, _)
Join(sep, l) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(sep, Tail(l))

Within(p, a, n) == a <= p /\ p < a + n
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
\* eighths: |a - b| <= atol + rtol * |b|
Close(a, b, r, t) == 8 * AbsI(a - b) <= 8 * t + r * AbsI(b)
RECURSIVE PowI(_, _)
PowI(n, k) == IF k = 0 THEN 1 ELSE n * PowI(n, k - 1)
===============================================================================
