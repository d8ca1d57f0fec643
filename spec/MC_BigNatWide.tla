---------------------------- MODULE MC_BigNatWide ----------------------------
(***************************************************************************)
(* Compares the Java class that replaces the operators of BigNat with      *)
(* their definitions, on wide numbers.  BigNatDef is a copy of BigNat      *)
(* under another name (made by tools/run.py), which the class does not     *)
(* replace.  BigNat itself must be replaced in this run.                   *)
(***************************************************************************)
EXTENDS BigNat
D == INSTANCE BigNatDef

Wide == { <<>>, <<1>>, <<255>>, <<0, 1>>, <<255, 255>>, <<0, 0, 128>>, <<1, 0, 0, 128>>,
          <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<239, 205, 171, 137, 103, 69, 35, 1>>,
          <<255, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 0, 0, 128>>,
          [i \in 1..17 |-> ((i * 37) % 255) + 1], [i \in 1..33 |-> IF i = 33 THEN 1 ELSE 0],
          [i \in 1..12 |-> 255] }
Shifts == {0, 1, 7, 8, 9, 23, 52, 64, 130}

VARIABLES a, b, ready
Init == a \in Wide /\ b = <<>> /\ ready = FALSE
Next == ~ready /\ b' \in Wide /\ ready' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, ready>>

Same == ready =>
  /\ NatAdd(a, b) = D!NatAdd(a, b)
  /\ NatCmp(a, b) = D!NatCmp(a, b)
  /\ NatCmp(a, b) >= 0 => NatSub(a, b) = D!NatSub(a, b)
  /\ NatMul(a, b) = D!NatMul(a, b)
  /\ (b /= <<>> /\ Len(a) <= 12) => NatDivMod(a, b) = D!NatDivMod(a, b)
  /\ b /= <<>> => <<NatDiv(a, b), NatRem(a, b)>> = NatDivMod(a, b)
  /\ NatBits(a) = D!NatBits(a)
  /\ (b = <<>> /\ Len(a) <= 8) => NatSqrt(a) = D!NatSqrt(a) /\ NatDec(a) = D!NatDec(a)
  /\ b = <<>> => NatOfDec(NatDec(a)) = a /\ D!NatOfDec(NatDec(a)) = a
  /\ NatNorm(a \o <<0, 0>>) = D!NatNorm(a \o <<0, 0>>)
  /\ b = <<>> => \A k \in Shifts : /\ NatShl(a, k) = D!NatShl(a, k)
                       /\ NatShr(a, k) = D!NatShr(a, k)
                       /\ NatLow(a, k) = D!NatLow(a, k)
                       /\ NatPow2(k) = D!NatPow2(k)
                       /\ NatPad(a, k) = D!NatPad(a, k)
  /\ (b = <<>> /\ a /= <<>>) => \A k \in 0..3 : NatPow(a, k) = D!NatPow(a, k)
=============================================================================
