------------------------------ MODULE NumericMC ------------------------------
\* The wide arithmetic of Numeric agrees with TLC's own integers, and the laws
\* of the domain hold, over all small operands.
EXTENDS Numeric
CONSTANTS Step
VARIABLES a, b, t
Ty == {[bits |-> k, sgn |-> g] : k \in {4, 8}, g \in BOOLEAN}
Vals == {(0-300) + k * Step : k \in 0..((300 - (0-300)) \div Step)} \cup {-65537, -65536, -65535, 65535, 65536, 65537, 131071, -131072}

Init == a \in Vals /\ b \in Vals /\ t \in Ty
Next == UNCHANGED <<a, b, t>>
CI(x) == LET hi == IF t.sgn THEN 2 ^ (t.bits - 1) - 1 ELSE 2 ^ t.bits - 1
             lo == IF t.sgn THEN 0 - 2 ^ (t.bits - 1) ELSE 0 IN
         IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
AddOk == Add(Small(a), Small(b)) = Small(a + b)
SubOk == Sub(Small(a), Small(b)) = Small(a - b)
LtOk == Lt(Small(a), Small(b)) <=> a < b
SatOk == SatAdd(t, Small(a), Small(b)) = Small(CI(a + b)) /\ SatSub(t, Small(a), Small(b)) = Small(CI(a - b))
StepOk == Prev(Succ(Small(a))) = Small(a)
===============================================================================
