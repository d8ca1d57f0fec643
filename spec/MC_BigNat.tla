------------------------------ MODULE MC_BigNat ------------------------------
(***************************************************************************)
(* Checks the definitions of BigNat against TLC's integers (run without    *)
(* the class that overrides them): all pairs of a set of numbers around    *)
(* powers of 256, up to 2^24.  Every state is one pair.                    *)
(***************************************************************************)
EXTENDS BigNat
CONSTANT Big
VARIABLES a, b, ready

Small == 0..20 \cup {127, 128, 255, 256, 257, 511, 512, 1000, 32767, 32768, 46340}
Nums == Small \cup Big

Init == a \in Nums /\ b = 0 /\ ready = FALSE
Next == ~ready /\ b' \in Nums /\ ready' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, ready>>

N(x) == NatOf(x)
RECURSIVE Log2(_)
Log2(n) == IF n = 0 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE Sqrt(_, _)
Sqrt(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE Sqrt(n, r + 1)

Exact == ready =>
  /\ NatToInt(N(a)) = a
  /\ N(a) = NatNorm(N(a) \o <<0, 0>>)
  /\ NatAdd(N(a), N(b)) = N(a + b)
  /\ a >= b => NatSub(N(a), N(b)) = N(a - b)
  /\ NatCmp(N(a), N(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
  /\ (a <= 46340 /\ b <= 46340) => NatMul(N(a), N(b)) = N(a * b)
  /\ b > 0 => NatDivMod(N(a), N(b)) = <<N(a \div b), N(a % b)>>
  /\ NatBits(N(a)) = Log2(a)
  /\ b <= 24 => /\ NatShr(N(a), b) = N(a \div 2^b)
                /\ NatLow(N(a), b) = N(a % 2^b)
                /\ NatPow2(b) = N(2^b)
  /\ (b <= 7 /\ a < 65536) => NatShl(N(a), b) = N(a * 2^b)
  /\ NatOfDec(NatDec(N(a))) = N(a)
  /\ a <= 70000 => NatSqrt(N(a)) = N(Sqrt(a, 0))
  /\ NatPad(N(a), 2) = <<a % 256, (a \div 256) % 256>>
  /\ (a <= 10 /\ b <= 8 /\ a + b > 0) => NatPow(N(a), b) = N(a^b)
=============================================================================
