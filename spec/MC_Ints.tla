------------------------------- MODULE MC_Ints -------------------------------
(***************************************************************************)
(* All pairs of one-byte integers: Ints against TLC's integers.            *)
(***************************************************************************)
EXTENDS Ints
VARIABLES a, b, ready

Init == a \in 0..255 /\ b = 0 /\ ready = FALSE
Next == ~ready /\ b' \in 0..255 /\ ready' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, ready>>

S(n) == IF n >= 128 THEN n - 256 ELSE n                   \* as a signed number
W(n) == <<n % 256>>                                       \* wrapped (TLA+'s % is never negative)
AbsI(n) == IF n < 0 THEN 0 - n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE 1
\* truncating division
Quo(x, y) == Sgn(x) * Sgn(y) * (AbsI(x) \div AbsI(y))

Exact ==
  ready =>
    LET x == S(a) y == S(b) u == <<a>> v == <<b>> IN
    /\ IntAdd(u, v) = W(x + y)
    /\ IntSub(u, v) = W(x - y)
    /\ IntMul(u, v) = W(x * y)
    /\ IntNeg(u) = W(0 - x)
    /\ IntAbs(u) = W(AbsI(x))
    /\ y /= 0 => /\ IntDiv(u, v) = W(Quo(x, y))
                 /\ IntRem(u, v) = W(x - y * Quo(x, y))
                 /\ AbsI(x - y * Quo(x, y)) < AbsI(y)
    /\ IntCmp(u, v) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
    /\ IntMag(u) = NatOf(AbsI(x)) /\ IntIsNeg(u) = (x < 0)
    /\ IntEnc(x < 0, IntMag(u), 1) = u
    /\ IntResize(IntResize(u, 2), 1) = u
    /\ IntSat(u) = x /\ IntSat(IntResize(u, 4)) = x /\ IntOf(x, 1) = u /\ IntOf(x, 4) = IntResize(u, 4)
    /\ IntFits(y < 0, NatOf(AbsI(x * y)), 1) = (IF y < 0 THEN AbsI(x * y) <= 128 ELSE AbsI(x * y) < 128)
    \* two-byte results of one-byte operands are exact
    /\ IntSat(IntAdd(IntResize(u, 2), IntResize(v, 2))) = x + y
    /\ IntSat(IntMul(IntResize(u, 2), IntResize(v, 2))) = (IF x = -128 /\ y = -128 THEN 16384 ELSE x * y)
    \* resizing <<a, b>> to one byte takes it modulo 256
    /\ IntResize(<<a, b>>, 1) = u
    /\ IntDec(u) = (IF x < 0 THEN <<45>> ELSE <<>>) \o
         (LET d == AbsI(x) IN IF d >= 100 THEN <<48 + (d \div 100), 48 + ((d \div 10) % 10), 48 + (d % 10)>>
                             ELSE IF d >= 10 THEN <<48 + (d \div 10), 48 + (d % 10)>> ELSE <<48 + d>>)
=============================================================================
