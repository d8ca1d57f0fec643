------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Operands of the expression machine.  An operand is a pair               *)
(* <<type, bytes>>; integers and floating point numbers are their bytes,   *)
(* least significant first, strings their bytes in order, a BOOL is one    *)
(* byte 0 or 1, NULL carries no type of its own.                           *)
(*                                                                         *)
(* Three further pairs describe evaluations that yield no operand:         *)
(*   Err    the evaluation fails with some exception;                      *)
(*   Limit  it fails with the range error of the library (ExprError);      *)
(*   Unspec the outcome is not specified (value or exception), because     *)
(*          neither the documentation nor the C++ standard fixes it.       *)
(***************************************************************************)
EXTENDS Floats

TNull == 0
TInt32 == 1
TInt64 == 2
TBool == 3
TFloat == 4
TDouble == 5
TDecimal == 6
TString == 7
Types == 0..7
\* Lists, of INT32, INT64, BOOL, FLOAT, DOUBLE and STRING: no operator works on
\* them, they are only carried around.  Their bytes stand for their content.
ListTypes == 8..13

Null == <<0, <<>>>>
Err == <<-1, <<1>>>>
Limit == <<-1, <<2>>>>
Unspec == <<-2, <<>>>>

IsErr(v) == v[1] = -1
IsUnspec(v) == v[1] = -2
IsValue(v) == v[1] >= 0

I32(b) == <<1, b>>
I64(b) == <<2, b>>
Bool(p) == <<3, IF p THEN <<1>> ELSE <<0>>>>
F32V(b) == <<4, b>>
F64V(b) == <<5, b>>
Str(b) == <<7, b>>
True == Bool(TRUE)
False == Bool(FALSE)

IsTrueV(v) == v = True

Fmt(t) == IF t = TFloat THEN F32 ELSE F64
IsInt(t) == t \in {1, 2}
IsFloat(t) == t \in {4, 5}
IsNum(t) == t \in {1, 2, 4, 5}
Width(t) == IF t = TInt32 THEN 4 ELSE 8

WellFormed(v) ==
  \/ v = Null
  \/ v[1] \in {1, 4} /\ Len(v[2]) = 4 /\ \A i \in 1..4 : v[2][i] \in 0..255
  \/ v[1] \in {2, 5} /\ Len(v[2]) = 8 /\ \A i \in 1..8 : v[2][i] \in 0..255
  \/ v \in {True, False}
  \/ v[1] \in {7} \cup ListTypes /\ \A i \in 1..Len(v[2]) : v[2][i] \in 0..255

(***************************************************************************)
(* Does the observed operand o agree with the specified operand v?  Only   *)
(* a NaN that results from an operation leaves a choice.                   *)
(***************************************************************************)
Agrees(v, o) ==
  \/ v = o
  \/ IsUnspec(v)
  \/ /\ IsFloat(v[1]) /\ o[1] = v[1]
     /\ v[2] = FNaN(Fmt(v[1]))
     /\ FIsNaN(Fmt(v[1]), o[2])

AgreesAll(vs, os) == Len(vs) = Len(os) /\ \A i \in 1..Len(vs) : Agrees(vs[i], os[i])

(***************************************************************************)
(* Bytewise unsigned lexicographic order of strings: -1, 0, 1.             *)
(***************************************************************************)
StrCmp(a, b) ==
  LET i == SkipWhile(LAMBDA k : k <= Len(b) /\ a[k] = b[k], 1, Len(a))     \* the first difference
  IN IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
     ELSE IF i > Len(b) THEN 1
     ELSE IF a[i] < b[i] THEN -1
     ELSE 1

\* The order of two non-NULL operands of type t: -1, 0, 1, or 2 (unordered)
Order(t, a, b) ==
  CASE IsInt(t) -> IntCmp(a[2], b[2])
    [] t = TBool -> (IF a = b THEN 0 ELSE IF a = False THEN -1 ELSE 1)
    [] IsFloat(t) -> FCmp(Fmt(t), a[2], b[2])
    [] t = TString -> StrCmp(a[2], b[2])

\* Equality of operands as used for grouping: same type and equal content,
\* where NaN equals nothing and the two zeros are equal.
SameOperand(a, b) ==
  IF a[1] /= b[1] THEN FALSE
  ELSE IF a[1] = TNull THEN TRUE
  ELSE IF IsFloat(a[1]) THEN FCmp(Fmt(a[1]), a[2], b[2]) = 0
  ELSE a = b
SameTuple(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameOperand(s[i], t[i])
=============================================================================
