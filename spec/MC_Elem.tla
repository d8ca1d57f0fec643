------------------------------- MODULE MC_Elem -------------------------------
(***************************************************************************)
(* The elementary functions of Elem, which are computed from series, obey  *)
(* the identities that define them, at arguments all over the range of     *)
(* DOUBLE: symmetry, the addition theorems that connect them, inverses,    *)
(* and the limits at both ends of their domains.                           *)
(***************************************************************************)
EXTENDS Elem, FiniteSets

CONSTANT Deep

Exps == IF Deep THEN {-1022, -900, -500, -100} \cup -60..64 \cup {100, 500, 1000, 1023}
        ELSE {-1022, -500, -60, -30, -9, -3, -2, -1, 0, 1, 2, 3, 4, 6, 8, 9, 12, 52, 53, 200, 1023}
Fracs == IF Deep THEN 0..6 ELSE {0, 1, 3, 4}

D(neg, e, f) == FMake(F64, neg, e + 1023, f)
Fraction(k) == CASE k = 0 -> <<>>
                 [] k = 1 -> NatPow2(51)
                 [] k = 2 -> NatPow2(50)
                 [] k = 3 -> <<255, 255, 255, 255, 255, 255, 15>>
                 [] k = 4 -> <<24, 45, 68, 84, 251, 33, 9>>       \* of pi
                 [] k = 5 -> <<1>>
                 [] k = 6 -> <<113, 249, 10, 61, 218, 7, 11>>

VARIABLE x
Init == x \in {D(g, e, Fraction(k)) : g \in BOOLEAN, e \in Exps, k \in Fracs}
Next == FALSE
Spec == Init /\ [][Next]_x

One == D(FALSE, 0, <<>>)
Two == D(FALSE, 1, <<>>)
Half(a) == FMul(F64, a, D(FALSE, -1, <<>>))
Fn(f, a) == ElemValue(f, a)
Neg(a) == FNegate(F64, a)
Sq(a) == FMul(F64, a, a)
\* within n units of the last place of a, or of 2^-k absolutely
Near(a, b, n) == ElemClose(a, b, n)
Abs(a, b, k) == FCmp(F64, FAbs(F64, FSub(F64, a, b)), D(FALSE, 0 - k, <<>>)) \in {-1, 0}
Less(a, b) == FCmp(F64, a, b) = -1
Le(a, b) == FCmp(F64, a, b) \in {-1, 0}
Mag == FAbs(F64, x)
E0 == FTop(x)

Symmetry ==
  /\ \A f \in {7, 9, 10, 12, 13, 15} : LET v == Fn(f, x) w == Fn(f, Neg(x)) IN IF FIsNaN(F64, v) THEN FIsNaN(F64, w) ELSE w = Neg(v)
  /\ \A f \in {8, 14} : Fn(f, Neg(x)) = Fn(f, x)

Circle ==
  LET s == Fn(7, x) c == Fn(8, x) t == Fn(9, x)
  IN /\ Abs(FAdd(F64, Sq(s), Sq(c)), One, 50)
     /\ Le(FAbs(F64, s), One) /\ Le(FAbs(F64, c), One)
     /\ Near(t, FDiv(F64, s, c), 4)
     /\ E0 < 900 => LET d == FAdd(F64, x, x) IN Abs(Fn(7, d), FMul(F64, Two, FMul(F64, s, c)), 49)
     /\ E0 < 900 => LET d == FAdd(F64, x, x) IN Abs(Fn(8, d), FSub(F64, Sq(c), Sq(s)), 49)

Arcs ==
  IF Less(One, Mag) THEN FIsNaN(F64, Fn(10, x)) /\ FIsNaN(F64, Fn(11, x))
  ELSE /\ Near(x, Fn(7, Fn(10, x)), 4) \/ Abs(x, Fn(7, Fn(10, x)), 52)
       /\ Abs(Fn(8, Fn(11, x)), x, 51)
       /\ Abs(FAdd(F64, Fn(10, x), Fn(11, x)), Fn(10, One), 51)
ArcTan ==
  LET a == Fn(12, x)
  IN /\ E0 < 20 => Near(x, Fn(9, a), IF E0 < 1 THEN 8 ELSE 16 * 2 ^ E0)
     /\ Le(FAbs(F64, a), Fn(10, One))
     /\ (E0 < 900 /\ E0 > -900) => Abs(FAdd(F64, FAbs(F64, a), Fn(12, FDiv(F64, One, Mag))), Fn(10, One), 51)
     /\ E0 > 60 => a = (IF FNeg(x) THEN Neg(Fn(10, One)) ELSE Fn(10, One))

Hyper ==
  LET s == Fn(13, x) c == Fn(14, x) t == Fn(15, x) e == Fn(16, x)
  IN /\ Le(One, c) /\ Le(FAbs(F64, t), One)
     /\ E0 < 9 => /\ Near(FAdd(F64, c, s), e, IF FNeg(x) THEN 1048576 ELSE 4) \/ FNeg(x)
                  /\ Near(t, FDiv(F64, s, c), 4)
                  /\ E0 < 3 => Near(Sq(c), FAdd(F64, One, Sq(s)), 8)
     /\ E0 > 5 => t = (IF FNeg(x) THEN Neg(One) ELSE One)
     /\ E0 > 10 => c = FInf(F64, FALSE) /\ FIsInf(F64, s)

Powers ==
  LET e == Fn(16, x)
  IN /\ IF FNeg(x) THEN Le(e, One) ELSE Le(One, e)
     /\ (E0 < 9 /\ E0 > -53) => Near(FMul(F64, e, Fn(16, Neg(x))), One, 4)
     /\ E0 < 9 => Near(Sq(Fn(16, Half(x))), e, 8)
     /\ E0 < -54 => e = One
     /\ (E0 < 9 /\ E0 > -20) => Abs(FDiv(F64, Fn(17, e), x), One, 28)
     /\ E0 > 10 => e = (IF FNeg(x) THEN FZero(F64, FALSE) ELSE FInf(F64, FALSE))

Logs ==
  IF FNeg(x) THEN FIsNaN(F64, Fn(17, x))
  ELSE LET l == Fn(17, x)
       IN /\ Less(One, x) = Less(FZero(F64, FALSE), l)
          /\ Near(FMul(F64, Two, l), Fn(17, Sq(x)), 8) \/ E0 > 500 \/ E0 < -500 \/ E0 \in {-1, 0}
          /\ E0 < 1023 => Abs(FAdd(F64, l, Fn(17, Two)), Fn(17, FAdd(F64, x, x)), 40)
          /\ E0 \in -20..20 => Near(x, Fn(16, l), 64)
=============================================================================
