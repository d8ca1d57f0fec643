-------------------------------- MODULE Calc --------------------------------
(***************************************************************************)
(* The meaning of every operator of the expression language on operands.   *)
(*                                                                         *)
(* An operator of the machine is a pair <<name, t>>: t is its data type,   *)
(* for conversions 16 * target + source, for functions the function        *)
(* number, for the logical operators 0.                                    *)
(***************************************************************************)
EXTENDS Values, Elem

---------------------------------------------------------------------------
(* Signatures: which operators exist, what they take and what they yield.  *)

Scalar == {1, 2, 3, 4, 5, 7}       \* all types but NULL and DECIMAL
Numeric == {1, 2, 4, 5}

ArithTypes == [pos |-> Numeric, neg |-> Numeric, add |-> Numeric \cup {TString}, sub |-> Numeric,
               mul |-> Numeric, div |-> Numeric, mod |-> {1, 2},
               min |-> Scalar, max |-> Scalar, abs |-> Numeric, abs_c |-> Numeric]
RelOps == {"eq", "ge", "gt", "le", "lt", "ne"}
IsOps == {"is_null", "is_true", "is_false"}
UnaryArith == {"pos", "neg", "abs", "abs_c"}

CastExists(dst, src) ==
  /\ dst \in Scalar /\ src \in Scalar /\ dst /= src
  /\ ~(dst = TBool /\ src = TString)

\* Function numbers
FunMath1 == 1..2 \cup 7..17               \* DOUBLE -> DOUBLE
FunStr1 == {34, 35, 38, 40, 42}           \* LOWER UPPER TRIM LTRIM RTRIM
FunStrInt == {36, 37, 45, 47}             \* LEFT RIGHT SUBSTR MID
FunStrInt2 == {44, 46}                    \* SUBSTR MID
Funs == FunMath1 \cup FunStr1 \cup {33} \cup FunStrInt \cup FunStrInt2

Exists(n, t) ==
  CASE n \in DOMAIN ArithTypes -> t \in ArithTypes[n]
    [] n \in RelOps \cup IsOps -> t \in Scalar
    [] n \in {"not", "and", "or"} -> t = 0
    [] n \in {"cast", "cast_c"} -> CastExists(t \div 16, t % 16)
    [] n = "fun" -> t \in Funs

\* Types of the operands (0: any type is accepted)
ArgTypes(n, t) ==
  CASE n \in UnaryArith -> <<t>>
    [] n \in DOMAIN ArithTypes \ UnaryArith -> <<t, t>>
    [] n \in RelOps -> <<t, t>>
    [] n \in IsOps -> <<t>>
    [] n = "not" -> <<TBool>>
    [] n \in {"and", "or"} -> <<TBool, TBool>>
    [] n \in {"cast", "cast_c"} -> <<t % 16>>
    [] n = "fun" -> (CASE t \in FunMath1 -> <<TDouble>>
                       [] t \in FunStr1 -> <<TString>>
                       [] t = 33 -> <<TString, TString>>
                       [] t \in FunStrInt -> <<TString, TInt32>>
                       [] t \in FunStrInt2 -> <<TString, TInt32, TInt32>>)
Arity(n, t) == Len(ArgTypes(n, t))

ResType(n, t) ==
  CASE n \in DOMAIN ArithTypes -> t
    [] n \in RelOps \cup IsOps \cup {"not", "and", "or"} -> TBool
    [] n \in {"cast", "cast_c"} -> t \div 16
    [] n = "fun" -> IF t \in FunMath1 THEN TDouble ELSE TString

---------------------------------------------------------------------------
(* Arithmetic, comparison                                                  *)

Arith1(n, t, a) ==
  IF IsInt(t)
  THEN CASE n = "pos" -> a
         [] n = "neg" -> <<t, IntNeg(a[2])>>
         [] n = "abs" -> <<t, IntAbs(a[2])>>
         [] n = "abs_c" -> IF a[2] = IntMin(Width(t)) THEN Limit ELSE <<t, IntAbs(a[2])>>
  ELSE CASE n = "pos" -> a
         [] n = "neg" -> <<t, FNegate(Fmt(t), a[2])>>
         [] OTHER     -> <<t, FAbs(Fmt(t), a[2])>>

MinMax(n, t, a, b) ==
  LET c == Order(t, b, a)
  IN IF c = (IF n = "min" THEN -1 ELSE 1) THEN b ELSE a

Arith2(n, t, a, b) ==
  CASE n \in {"min", "max"} -> MinMax(n, t, a, b)
    [] t = TString -> Str(a[2] \o b[2])
    [] IsInt(t) /\ n \notin {"min", "max"} ->
         (CASE n = "add" -> <<t, IntAdd(a[2], b[2])>>
            [] n = "sub" -> <<t, IntSub(a[2], b[2])>>
            [] n = "mul" -> <<t, IntMul(a[2], b[2])>>
            [] n = "div" -> IF IntIsZero(b[2]) THEN Null ELSE <<t, IntDiv(a[2], b[2])>>
            [] n = "mod" -> IF IntIsZero(b[2]) THEN Null ELSE <<t, IntRem(a[2], b[2])>>)
    [] IsFloat(t) /\ n \notin {"min", "max"} ->
         (CASE n = "add" -> <<t, FAdd(Fmt(t), a[2], b[2])>>
            [] n = "sub" -> <<t, FSub(Fmt(t), a[2], b[2])>>
            [] n = "mul" -> <<t, FMul(Fmt(t), a[2], b[2])>>
            [] n = "div" -> IF FIsZero(Fmt(t), b[2]) THEN Null ELSE <<t, FDiv(Fmt(t), a[2], b[2])>>)

Compare(n, t, a, b) ==
  LET c == Order(t, a, b)
  IN Bool(CASE n = "eq" -> c = 0
            [] n = "ne" -> c /= 0
            [] n = "lt" -> c = -1
            [] n = "le" -> c \in {-1, 0}
            [] n = "gt" -> c = 1
            [] n = "ge" -> c \in {0, 1})

---------------------------------------------------------------------------
(* Conversions                                                             *)

IsSpace(c) == c = 32 \/ c \in 9..13
IsDigit(c) == c \in 48..57

SkipSpaces(s, i) == SkipWhile(LAMBDA k : IsSpace(s[k]), i, Len(s))
SkipDigits(s, i) == SkipWhile(LAMBDA k : IsDigit(s[k]), i, Len(s))

At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
DigitsOf(s, i, j) == [k \in 1..(j - i) |-> s[i + k - 1] - 48]     \* positions i..j-1

\* A zero byte ends what the C conversion functions look at.
CString(s) == SubSeq(s, 1, SkipWhile(LAMBDA k : s[k] /= 0, 1, Len(s)) - 1)

StrToInt(s0, n) ==
  LET s == TLCEval(CString(s0))
      i == SkipSpaces(s, 1)
      g == At(s, i) \in {43, 45}
      j == IF g THEN i + 1 ELSE i
      k == SkipDigits(s, j)
      m == TLCEval(NatOfDec(DigitsOf(s, j, k)))
      neg == At(s, i) = 45
  IN IF k = j THEN <<IF n = 4 THEN TInt32 ELSE TInt64, IntZero(n)>>
     ELSE IF IntFits(neg, m, n) THEN <<IF n = 4 THEN TInt32 ELSE TInt64, IntEnc(neg, m, n)>>
     ELSE Err

Lower1(c) == IF c \in 65..90 THEN c + 32 ELSE c
Upper1(c) == IF c \in 97..122 THEN c - 32 ELSE c

StrToFloat(s0, t) ==
  LET F == Fmt(t)
      s == TLCEval(CString(s0))
      i == SkipSpaces(s, 1)
      g == At(s, i) \in {43, 45}
      neg == At(s, i) = 45
      j == IF g THEN i + 1 ELSE i
      k == SkipDigits(s, j)
      dot == At(s, k) = 46
      l == IF dot THEN SkipDigits(s, k + 1) ELSE k
      nd == (k - j) + (IF dot THEN l - k - 1 ELSE 0)                \* number of digits
      ds == TLCEval(DigitsOf(s, j, k) \o (IF dot THEN DigitsOf(s, k + 1, l) ELSE <<>>))
      e  == Lower1(At(s, l)) = 101
      eg == At(s, l + 1) \in {43, 45}
      x0 == IF eg THEN l + 2 ELSE l + 1
      x1 == SkipDigits(s, x0)
      hasexp == e /\ x1 > x0
      xm == TLCEval(IF hasexp THEN NatOfDec(DigitsOf(s, x0, x1)) ELSE <<>>)
      xs == IF NatBits(xm) > 20 THEN 1048576 ELSE NatToInt(xm)
      x  == (IF hasexp /\ At(s, l + 1) = 45 THEN 0 - xs ELSE xs) - (IF dot THEN l - k - 1 ELSE 0)
      n  == TLCEval(NatOfDec(ds))
      mag == x + Len(NatDec(n))                                       \* value < 10^mag
      c  == Lower1(At(s, j))
  IN IF nd = 0
     THEN IF c \in {105, 110} THEN Unspec ELSE <<t, FZero(F, FALSE)>>    \* inf, nan: not specified
     ELSE IF At(s, j) = 48 /\ Lower1(At(s, j + 1)) = 120 THEN Unspec      \* hexadecimal: not specified
     ELSE IF n = <<>> THEN <<t, FZero(F, neg)>>
     ELSE IF mag > 400 THEN Err
     ELSE IF mag < -400 THEN Unspec                                       \* underflow: not specified
     ELSE LET r == TLCEval(FOfDecimal(F, neg, n, x))
          IN IF FIsInf(F, r) THEN Err
             ELSE IF FExp(F, r) = 0 THEN Unspec
             ELSE <<t, r>>

\* FLOAT or DOUBLE to an integer of n bytes
FloatToInt(F, a, n) ==
  LET m == TLCEval(FRoundHalfAway(F, a))
  IN IF ~FIsFin(F, a) \/ ~IntFits(FNeg(a), m, 8) THEN Unspec
     ELSE <<IF n = 4 THEN TInt32 ELSE TInt64, IntEnc(FNeg(a), m, n)>>

FloatToIntChecked(F, a, n) ==
  LET m == TLCEval(FRoundHalfAway(F, a))
  IN IF ~FIsFin(F, a) THEN Limit
     ELSE IF IntFits(FNeg(a), m, n) THEN <<IF n = 4 THEN TInt32 ELSE TInt64, IntEnc(FNeg(a), m, n)>>
     ELSE Limit

TextTrue == <<116, 114, 117, 101>>
TextFalse == <<102, 97, 108, 115, 101>>
TextInf == <<105, 110, 102>>

FloatToText(F, a) ==
  IF FIsNaN(F, a) THEN Unspec
  ELSE IF FIsInf(F, a) THEN Str(IF FNeg(a) THEN <<45>> \o TextInf ELSE TextInf)
  ELSE Str(FDecText(F, a, 15))

Cast(dst, src, a) ==
  CASE dst \in {1, 2} ->
         (LET n == Width(dst) IN
          CASE src \in {1, 2} -> <<dst, IntResize(a[2], n)>>
            [] src = TBool -> <<dst, IF a = True THEN IntOne(n) ELSE IntZero(n)>>
            [] src \in {4, 5} -> FloatToInt(Fmt(src), a[2], n)
            [] src = TString -> StrToInt(a[2], n))
    [] dst = TBool ->
         (CASE src \in {1, 2} -> Bool(~IntIsZero(a[2]))
            [] src \in {4, 5} -> Bool(~FIsZero(Fmt(src), a[2])))
    [] dst \in {4, 5} ->
         (CASE src \in {1, 2} -> <<dst, FOfInt(Fmt(dst), a[2])>>
            [] src = TBool -> <<dst, FOfInt(Fmt(dst), IF a = True THEN IntOne(4) ELSE IntZero(4))>>
            [] src \in {4, 5} -> <<dst, FConv(Fmt(src), Fmt(dst), a[2])>>
            [] src = TString -> StrToFloat(a[2], dst))
    [] dst = TString ->
         (CASE src \in {1, 2} -> Str(IntDec(a[2]))
            [] src = TBool -> Str(IF a = True THEN TextTrue ELSE TextFalse)
            [] src \in {4, 5} -> FloatToText(Fmt(src), a[2]))

CastChecked(dst, src, a) ==
  IF dst = TInt32 /\ src = TInt64
  THEN IF IntFits(IntIsNeg(a[2]), IntMag(a[2]), 4) THEN <<1, IntResize(a[2], 4)>> ELSE Limit
  ELSE IF dst \in {1, 2} /\ src \in {4, 5} THEN FloatToIntChecked(Fmt(src), a[2], Width(dst))
  ELSE Cast(dst, src, a)

---------------------------------------------------------------------------
(* String functions.  Positions and lengths are integers of any size;      *)
(* saturating them at 2^30 changes nothing for strings shorter than that.  *)

MapStr(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]

LTrim(s) == SubSeq(s, SkipSpaces(s, 1), Len(s))
\* The number of blanks at the end
Blanks(s) == SkipWhile(LAMBDA k : IsSpace(s[Len(s) + 1 - k]), 1, Len(s)) - 1
RTrim(s) == SubSeq(s, 1, Len(s) - Blanks(s))

Left(s, n)  == SubSeq(s, 1, IF n < 0 THEN 0 ELSE IF n > Len(s) THEN Len(s) ELSE n)
Right(s, n) == SubSeq(s, IF n < 0 THEN Len(s) + 1 ELSE IF n > Len(s) THEN 1 ELSE Len(s) - n + 1, Len(s))

\* From position `from` (from 0) to the end: an error when beyond the end
SubstrFrom(s, from0) ==
  LET from == IF from0 < 0 THEN 0 ELSE from0
  IN IF from > Len(s) THEN Err ELSE Str(SubSeq(s, from + 1, Len(s)))

\* From position `from` up to, not including, position `to`.
\* Deviation kept from the implementation: `to` before `from` selects
\* everything from `from` on.
SubstrTo(s, from0, to) ==
  LET from == IF from0 < 0 THEN 0 ELSE from0
  IN IF from > Len(s) THEN Err
     ELSE IF to >= Len(s) \/ to < from THEN Str(SubSeq(s, from + 1, Len(s)))
     ELSE Str(SubSeq(s, from + 1, to))

\* Position p counts from 1, or from the end when negative: 0 if there is none
MidStart(s, p) == IF p >= 1 /\ p <= Len(s) THEN p
                  ELSE IF p < 0 /\ 0 - p <= Len(s) THEN Len(s) + p + 1
                  ELSE 0
MidLen(s, p, n) ==
  LET b == MidStart(s, p)
  IN IF n <= 0 \/ b = 0 THEN <<>>
     ELSE SubSeq(s, b, IF n > Len(s) - b + 1 THEN Len(s) ELSE b + n - 1)
MidEnd(s, p) == LET b == MidStart(s, p) IN IF b = 0 THEN <<>> ELSE SubSeq(s, b, Len(s))

Fun(t, a) ==
  CASE t = 1 -> F64V(FCeil(F64, a[1][2]))
    [] t = 2 -> F64V(FFloor(F64, a[1][2]))
    [] t \in 7..17 -> <<-3, <<t>> \o a[1][2]>>           \* any value that ElemAgrees
    [] t = 33 -> Str(a[1][2] \o a[2][2])
    [] t = 34 -> Str(MapStr(a[1][2], Lower1))
    [] t = 35 -> Str(MapStr(a[1][2], Upper1))
    [] t = 36 -> Str(Left(a[1][2], IntSat(a[2][2])))
    [] t = 37 -> Str(Right(a[1][2], IntSat(a[2][2])))
    [] t = 38 -> Str(LTrim(RTrim(a[1][2])))
    [] t = 40 -> Str(LTrim(a[1][2]))
    [] t = 42 -> Str(RTrim(a[1][2]))
    [] t = 44 -> SubstrTo(a[1][2], IntSat(a[2][2]), IntSat(a[3][2]))
    [] t = 45 -> SubstrFrom(a[1][2], IntSat(a[2][2]))
    [] t = 46 -> Str(MidLen(a[1][2], IntSat(a[2][2]), IntSat(a[3][2])))
    [] t = 47 -> Str(MidEnd(a[1][2], IntSat(a[2][2])))

---------------------------------------------------------------------------
(* Logic: the operands are TRUE, FALSE or NULL.  An operand of another     *)
(* type is an error, unless the other operand (the first one inspected)    *)
(* already decides the result: the implementation looks at the first       *)
(* operand, then at the second.                                            *)

Not(a) == IF a = Null THEN Null ELSE IF a[1] /= TBool THEN Err ELSE Bool(a = False)

Decide(d, a, b) ==      \* d = False for AND, True for OR: the deciding value
  IF a = Null THEN (IF b = Null THEN Null ELSE IF b[1] /= TBool THEN Err ELSE IF b = d THEN d ELSE Null)
  ELSE IF a[1] /= TBool THEN Err
  ELSE IF a = d THEN d
  ELSE IF b = Null THEN Null
  ELSE IF b[1] /= TBool THEN Err
  ELSE b

IsTrueOf(t, a) ==      \* for a non-NULL operand of type t
  CASE IsInt(t) -> ~IntIsZero(a[2])
    [] t = TBool -> a = True
    [] IsFloat(t) -> ~FIsZero(Fmt(t), a[2])
    [] t = TString -> FALSE

Is(n, t, a) ==
  CASE n = "is_null" -> Bool(a = Null)
    [] a = Null -> False
    \* the predicates on strings do not look at the operand, so whether they
    \* notice one of another type is not specified
    [] t = TString /\ a[1] = t -> Bool(n = "is_false")
    [] t = TString -> Unspec
    [] a[1] /= t -> Err
    [] n = "is_true" -> Bool(IsTrueOf(t, a))
    [] n = "is_false" -> Bool(~IsTrueOf(t, a))

---------------------------------------------------------------------------
(* The value of operator <<n, t>> applied to operands a (in encoded order) *)

Strict(n) == n \notin IsOps \cup {"not", "and", "or"}

Apply(n, t, a) ==
  IF \E i \in 1..Len(a) : ~IsValue(a[i]) THEN Unspec      \* an outcome not known exactly
  ELSE IF ~Strict(n)
  THEN CASE n = "not" -> Not(a[1])
         [] n = "and" -> Decide(False, a[1], a[2])
         [] n = "or"  -> Decide(True, a[1], a[2])
         [] n \in IsOps -> Is(n, t, a[1])
  ELSE IF \E i \in 1..Len(a) : a[i] = Null THEN Null
  ELSE LET ts == ArgTypes(n, t)
       IN IF \E i \in 1..Len(a) : a[i][1] /= ts[i] THEN Err
          ELSE CASE n \in UnaryArith -> Arith1(n, t, a[1])
                 [] n \in DOMAIN ArithTypes \ UnaryArith -> Arith2(n, t, a[1], a[2])
                 [] n \in RelOps -> Compare(n, t, a[1], a[2])
                 [] n = "cast" -> Cast(t \div 16, t % 16, a[1])
                 [] n = "cast_c" -> CastChecked(t \div 16, t % 16, a[1])
                 [] n = "fun" -> Fun(t, a)
=============================================================================
