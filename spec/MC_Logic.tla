------------------------------ MODULE MC_Logic ------------------------------
(***************************************************************************)
(* Laws of the logical operators and of NULL.                              *)
(*                                                                         *)
(* Three-valued logic is the order FALSE < NULL < TRUE: AND is the         *)
(* minimum, OR the maximum, NOT the reversal.  The other operators are     *)
(* strict: one NULL operand makes the result NULL, and nothing else does   *)
(* but a zero divisor.                                                     *)
(***************************************************************************)
EXTENDS Calc, FiniteSets

RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Some == [t \in 1..7 |->
  CASE t = 1 -> {I32(IntOf(n, 4)) : n \in {0, 1, -1, 3}} \cup {I32(IntMin(4))}
    [] t = 2 -> {I64(IntOf(n, 8)) : n \in {0, 1, -2}} \cup {I64(IntMin(8)), I64(IntMax(8))}
    [] t = 3 -> {True, False}
    [] t = 4 -> {F32V(FZero(F32, TRUE)), F32V(FZero(F32, FALSE)), F32V(FNaN(F32)), F32V(FInf(F32, TRUE)), F32V(<<0, 0, 32, 64>>)}
    [] t = 5 -> {F64V(FZero(F64, TRUE)), F64V(FZero(F64, FALSE)), F64V(FNaN(F64)), F64V(FInf(F64, FALSE)), F64V(<<1, 0, 0, 0, 0, 0, 224, 63>>)}
    [] t = 7 -> {Str(<<>>), Str(<<49>>), Str(<<0, 97, 32>>)}
    [] OTHER -> {}]
Values == UNION {Some[t] : t \in 1..7}
Three == {Null, True, False}

Names == DOMAIN ArithTypes \cup RelOps \cup IsOps
Ops == {o \in Names \X (1..7) : Exists(o[1], o[2])}
       \cup {o \in {"cast", "cast_c"} \X (0..127) : Exists(o[1], o[2])} \cup ({"fun"} \X Funs)

VARIABLES o, a
vars == <<o, a>>

Init == /\ o \in Ops \cup {<<"logic", 0>>}
        /\ a \in Three \cup Values
Next == FALSE
Spec == Init /\ [][Next]_vars

Rank(v) == IF v = False THEN 0 ELSE IF v = Null THEN 1 ELSE 2
OfRank(n) == IF n = 0 THEN False ELSE IF n = 1 THEN Null ELSE True
Least(x, y) == IF x < y THEN x ELSE y
Most(x, y) == IF x < y THEN y ELSE x

And(x, y) == Apply("and", 0, <<x, y>>)
Or(x, y) == Apply("or", 0, <<x, y>>)
N(x) == Apply("not", 0, <<x>>)

Kleene ==
  (o[1] = "logic" /\ a \in Three) =>
    /\ N(a) = OfRank(2 - Rank(a)) /\ N(N(a)) = a
    /\ \A x \in Three :
         /\ And(a, x) = OfRank(Least(Rank(a), Rank(x))) /\ And(a, x) = And(x, a)
         /\ Or(a, x) = OfRank(Most(Rank(a), Rank(x))) /\ Or(a, x) = Or(x, a)
         /\ N(And(a, x)) = Or(N(a), N(x)) /\ N(Or(a, x)) = And(N(a), N(x))
         /\ And(a, Or(a, x)) = a
         /\ \A y \in Three : /\ And(a, And(x, y)) = And(And(a, x), y)
                             /\ Or(a, Or(x, y)) = Or(Or(a, x), y)
                             /\ And(a, Or(x, y)) = Or(And(a, x), And(a, y))

\* An operand that is no BOOL never counts as one
NoBool ==
  (o[1] = "logic" /\ a \notin Three) =>
    /\ IsErr(N(a))
    /\ \A x \in Three : /\ IsErr(And(a, x)) /\ IsErr(Or(a, x))
                        /\ IsErr(And(x, a)) \/ x = False
                        /\ IsErr(Or(x, a)) \/ x = True

\* The predicates on NULL and on values of their type
Predicates ==
  o[1] \in IsOps =>
    LET t == o[2]
        is(n) == Apply(n, t, <<a>>)
    IN /\ a = Null => is("is_null") = True /\ is("is_true") = False /\ is("is_false") = False
       /\ a[1] = t => /\ is("is_null") = False
                      /\ {is("is_true"), is("is_false")} = {True, False}
                      /\ t = TString => is("is_false") = True
                      /\ (t = TBool /\ a = False) => is("is_false") = True
                      /\ IsInt(t) => is("is_true") = Apply("ne", t, <<a, <<t, IntZero(Width(t))>>>>)
                      /\ IsFloat(t) => is("is_true") = Apply("ne", t, <<a, <<t, FZero(Fmt(t), FALSE)>>>>)

\* Operands of the types ts, each NULL or not; the first one is a
ArgTuples(ts) ==
  CASE Len(ts) = 1 -> {<<a>>}
    [] Len(ts) = 2 -> {<<a, x>> : x \in {Null} \cup Some[ts[2]]}
    [] Len(ts) = 3 -> {<<a, x, y>> : x \in {Null} \cup Some[ts[2]], y \in {Null} \cup Some[ts[3]]}
ZeroDivisor(x) == o[1] \in {"div", "mod"} /\ Apply("is_true", o[2], <<x[2]>>) = False

Strictness ==
  (o[1] # "logic" /\ o[1] \notin IsOps /\ (a = Null \/ a \in Some[ArgTypes(o[1], o[2])[1]])) =>
    \A x \in ArgTuples(ArgTypes(o[1], o[2])) :
      LET v == Apply(o[1], o[2], x)
      IN (v = Null) = ((\E i \in 1..Len(x) : x[i] = Null) \/ ZeroDivisor(x))

\* An operator never takes a value of another type
Typing ==
  (o[1] # "logic" /\ o[1] \notin IsOps) =>
    LET ts == ArgTypes(o[1], o[2])
    IN /\ (a # Null /\ a[1] # ts[1]) =>
            IsErr(Apply(o[1], o[2], [i \in 1..Len(ts) |-> IF i = 1 THEN a ELSE CHOOSE v \in Some[ts[i]] : TRUE]))
       /\ (a[1] = ts[1]) =>
            \A x \in ArgTuples(ts) :
              LET v == Apply(o[1], o[2], x)
              IN v = Null \/ ~IsValue(v) \/ (v[1] = ResType(o[1], o[2]) /\ WellFormed(v))
=============================================================================
