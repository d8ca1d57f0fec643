------------------------------ MODULE Gen_Ops -------------------------------
(***************************************************************************)
(* Enumerates test inputs from the specification: every operator that      *)
(* exists, on every combination of the edge values of the types it takes,  *)
(* NULL included; every operator on operands of all other types; every     *)
(* code of an operator with every data type byte.  A case is [g, code,     *)
(* row]: its group, a program, the tuple it is run on.                     *)
(***************************************************************************)
EXTENDS ExprVM, FiniteSets, SequencesExt, Json, IOUtils

I4(n) == I32(IntOf(n, 4))
I8(n) == I64(IntOf(n, 8))
I8x(neg, p, d) == I64(IntEnc(neg, NatAdd(NatPow2(p), NatOf(d)), 8))      \* +-(2^p + d)
I4m(b0, b3) == I32(<<b0, b0, b0, b3>>)
Fl(b) == F32V(RevSeq(b))      \* big-endian bytes
Db(b) == F64V(RevSeq(b))

Edge ==
  [t \in 1..7 |->
     CASE t = 1 -> {I4(n) : n \in {0, 1, -1, 2, -2, 7, -7, 10, 46341, 65536, -65536, 16777217, 2147483647, 1073741825}}
                   \cup {I32(<<0, 0, 0, 128>>), I32(<<1, 0, 0, 128>>)}
       [] t = 2 -> {I8(n) : n \in {0, 1, -1, 2, -7, 10, 65536, 2147483647}}
                   \cup {I8x(FALSE, 31, 0), I8x(TRUE, 31, 0), I8x(TRUE, 31, 1), I8x(FALSE, 32, 1), I8x(TRUE, 32, 0),
                         I8x(FALSE, 53, 1), I8x(FALSE, 62, 3), I64(<<255, 255, 255, 255, 255, 255, 255, 127>>),
                         I64(<<0, 0, 0, 0, 0, 0, 0, 128>>), I64(<<1, 0, 0, 0, 0, 0, 0, 128>>),
                         I64(<<5, 242, 4, 181, 0, 0, 0, 0>>)}
       [] t = 3 -> {True, False}
       [] t = 4 -> {Fl(<<0, 0, 0, 0>>), Fl(<<128, 0, 0, 0>>), Fl(<<0, 0, 0, 1>>), Fl(<<128, 127, 255, 255>>), Fl(<<0, 128, 0, 0>>),
                    Fl(<<63, 128, 0, 0>>), Fl(<<191, 128, 0, 0>>), Fl(<<63, 128, 0, 1>>), Fl(<<63, 0, 0, 0>>), Fl(<<62, 255, 255, 255>>),
                    Fl(<<192, 32, 0, 0>>), Fl(<<64, 73, 15, 219>>), Fl(<<75, 127, 255, 255>>), Fl(<<75, 128, 0, 0>>),
                    Fl(<<79, 0, 0, 0>>), Fl(<<207, 0, 0, 0>>), Fl(<<94, 255, 255, 255>>), Fl(<<223, 0, 0, 0>>),
                    Fl(<<127, 127, 255, 255>>), Fl(<<127, 128, 0, 0>>), Fl(<<255, 128, 0, 0>>), Fl(<<127, 192, 0, 0>>),
                    Fl(<<61, 204, 204, 205>>), Fl(<<55, 128, 0, 0>>)}
       [] t = 5 -> {Db(<<0, 0, 0, 0, 0, 0, 0, 0>>), Db(<<128, 0, 0, 0, 0, 0, 0, 0>>), Db(<<0, 0, 0, 0, 0, 0, 0, 1>>),
                    Db(<<128, 15, 255, 255, 255, 255, 255, 255>>), Db(<<0, 16, 0, 0, 0, 0, 0, 0>>),
                    Db(<<63, 240, 0, 0, 0, 0, 0, 0>>), Db(<<191, 240, 0, 0, 0, 0, 0, 0>>), Db(<<63, 240, 0, 0, 0, 0, 0, 1>>),
                    Db(<<63, 224, 0, 0, 0, 0, 0, 0>>), Db(<<63, 223, 255, 255, 255, 255, 255, 255>>),
                    Db(<<192, 4, 0, 0, 0, 0, 0, 0>>), Db(<<64, 9, 33, 251, 84, 68, 45, 24>>),
                    Db(<<65, 223, 255, 255, 255, 192, 0, 0>>), Db(<<65, 223, 255, 255, 255, 224, 0, 0>>), Db(<<193, 224, 0, 0, 0, 16, 0, 0>>),
                    Db(<<193, 224, 0, 0, 0, 0, 0, 0>>), Db(<<67, 64, 0, 0, 0, 0, 0, 0>>), Db(<<67, 223, 255, 255, 255, 255, 255, 255>>),
                    Db(<<195, 224, 0, 0, 0, 0, 0, 0>>), Db(<<67, 224, 0, 0, 0, 0, 0, 0>>),
                    Db(<<127, 239, 255, 255, 255, 255, 255, 255>>), Db(<<127, 240, 0, 0, 0, 0, 0, 0>>),
                    Db(<<255, 240, 0, 0, 0, 0, 0, 0>>), Db(<<127, 248, 0, 0, 0, 0, 0, 0>>), Db(<<63, 185, 153, 153, 153, 153, 153, 154>>),
                    Db(<<62, 240, 0, 0, 0, 0, 0, 0>>), Db(<<63, 240, 0, 0, 16, 0, 0, 0>>), Db(<<54, 144, 0, 0, 0, 0, 0, 1>>)}
       [] t = 7 -> {Str(b) : b \in {<<>>, <<32>>, <<97>>, <<98>>, <<97, 98>>, <<65, 98, 67>>, <<32, 9, 97, 32, 98, 10, 13>>,
                                    <<0>>, <<97, 0, 98>>, <<255>>, <<127, 128>>, <<49, 50>>, <<32, 45, 55, 120>>,
                                    <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<49, 46, 53, 101, 50>>, <<46>>,
                                    <<91, 96, 64, 123>>, <<97, 98, 99, 100, 101, 102, 103, 104>>}}
       [] OTHER -> {}]

\* Fewer values of each type, for combinations of types
Few == [t \in 1..7 |->
          CASE t = 1 -> {I4(0), I4(3)} [] t = 2 -> {I8(0), I8(5)} [] t = 3 -> {True, False}
            [] t = 4 -> {Fl(<<0, 0, 0, 0>>), Fl(<<64, 32, 0, 0>>)} [] t = 5 -> {Db(<<0, 0, 0, 0, 0, 0, 0, 0>>), Db(<<192, 4, 0, 0, 0, 0, 0, 0>>)}
            [] t = 7 -> {Str(<<>>), Str(<<97, 98, 99>>)} [] OTHER -> {}]
FewInts == {I4(n) : n \in {0, 1, 2, 3, 4, 7, 8, 9, -1, -2, -8, -9, 2147483647}} \cup {I32(<<0, 0, 0, 128>>)}

\* All operators
TypedNames == DOMAIN ArithTypes \cup RelOps \cup IsOps
AllOps == {o \in TypedNames \X (1..7) : Exists(o[1], o[2])}
          \cup ({"not", "and", "or"} \X {0})
          \cup {o \in {"cast", "cast_c"} \X (0..127) : Exists(o[1], o[2])}
          \cup ({"fun"} \X Funs)

Group(o) ==
  CASE o[1] \in {"min", "max"} \cup RelOps -> "order"
    [] o[1] \in IsOps \cup {"not", "and", "or"} -> "logic"
    [] o[1] = "cast" -> "cast"
    [] o[1] = "cast_c" \/ o[1] = "abs_c" -> "checked"
    [] o[1] = "fun" -> IF o[2] \in FunMath1 THEN "math" ELSE "text"
    [] o[2] = 7 -> "text"
    [] IsInt(o[2]) -> "int"
    [] OTHER -> "float"

\* A program that applies o to the operands a; the operands in the positions
\* `vars` are read from a tuple, the others are constants
PushOp(v, t, i, vars) == IF i \in vars THEN <<48 + t>> \o EncNum(i - 1)
                         ELSE IF v = Null THEN <<IF t = 0 THEN 1 ELSE t>> ELSE EncConst(v[1], v)
Case(g, o, a, ts, vars) ==
  [g |-> g, row |-> IF vars = {} THEN <<>> ELSE a,
   code |-> Fold(LAMBDA x, i : TLCEval(x \o PushOp(a[i], ts[i], i, vars)), <<>>, [i \in 1..Len(a) |-> i])
            \o EncIns(OpIns(o[1], o[2]))]

Prod(sets) ==     \* all sequences with the i-th element from sets[i]
  CASE Len(sets) = 1 -> {<<x>> : x \in sets[1]}
    [] Len(sets) = 2 -> {<<x, y>> : x \in sets[1], y \in sets[2]}
    [] Len(sets) = 3 -> {<<x, y, z>> : x \in sets[1], y \in sets[2], z \in sets[3]}

TypeOr(v, t) == IF v = Null THEN t ELSE v[1]
ArgsOf(o) ==
  LET ts == ArgTypes(o[1], o[2])
  IN Prod([i \in 1..Len(ts) |-> {Null} \cup (IF o[1] = "fun" /\ ts[i] = 1 THEN FewInts ELSE Edge[ts[i]])])

EdgeCases(o) ==
  LET ts == ArgTypes(o[1], o[2]) IN
  {Case(Group(o), o, a, ts, IF (Len(a[1][2]) + a[1][1]) % 2 = 0 THEN {} ELSE 1..Len(ts)) : a \in ArgsOf(o)}

\* Operands of any types; NULL in any position
MixedValues == {Null} \cup UNION {Few[t] : t \in {1, 2, 3, 4, 5, 7}}
MixedCases(o) ==
  LET n == Arity(o[1], o[2])
      ts == ArgTypes(o[1], o[2])
      logical == o[1] \in {"and", "or", "not"} \cup IsOps
      hint(i) == IF o[1] \in IsOps THEN o[2] ELSE ts[i]
  IN {Case(IF logical THEN "logic" ELSE "mixed", o, a, [i \in 1..n |-> TypeOr(a[i], hint(i))], {})
        : a \in IF n < 3 THEN Prod([i \in 1..n |-> MixedValues])
                ELSE Prod([i \in 1..n |-> {Null, I4(2), I8(5), Str(<<97, 98, 99>>), True}])}

\* Every operator byte with every data type byte, with operands it could take
SomeArgs(o) == LET ts == ArgTypes(o[1], o[2])
               IN [i \in 1..Len(ts) |-> CHOOSE v \in Few[IF ts[i] = 0 THEN 1 ELSE ts[i]] : TRUE]
Consts(a) == Fold(LAMBDA x, v : TLCEval(x \o EncConst(v[1], v)), <<>>, a)
OpOf(a, b) == IF a \in DOMAIN TypedByCode THEN <<TypedByCode[a], b>>
              ELSE IF a = CodeCast THEN <<"cast", b>> ELSE IF a = CodeCastC THEN <<"cast_c", b>>
              ELSE IF a = CodeFun THEN <<"fun", b>> ELSE <<"none", 0>>
TwoByteCases(a) ==
  {[g |-> "codes", row |-> <<>>,
    code |-> (IF OpOf(a, b) \in AllOps THEN Consts(SomeArgs(OpOf(a, b))) ELSE <<17, 1>>) \o <<a, b>>] : b \in 0..255}
OneByteCases(a) ==
  {[g |-> "codes", row |-> <<>>, code |-> pre \o <<a>> \o tail]
     : pre \in {<<>>, <<19, 35>>},
       tail \in {<<>>, <<0>>, <<5>>, <<2, 65, 0>>, <<0, 0, 0, 0>>, <<64, 9, 0, 0, 0, 0, 0, 0, 0, 19>>}}

(***************************************************************************)
(* One state per operator and per operator byte; each writes its cases.    *)
(***************************************************************************)
Jobs == SetToSeq({<<"edge", o>> : o \in AllOps} \cup {<<"mixed", o>> : o \in AllOps}
                 \cup {<<"one", <<"", a>>>> : a \in 0..127} \cup {<<"two", <<"", a>>>> : a \in 128..255})
CasesOf(j) ==
  CASE j[1] = "edge" -> EdgeCases(j[2])
    [] j[1] = "mixed" -> MixedCases(j[2])
    [] j[1] = "one" -> OneByteCases(j[2][2])
    [] j[1] = "two" -> TwoByteCases(j[2][2])

VARIABLES job, done
Init == job \in 1..Len(Jobs) /\ done = FALSE
Next == /\ ~done
        /\ ndJsonSerialize(IOEnv.OUT \o "/" \o ToString(job), SetToSeq(CasesOf(Jobs[job])))
        /\ done' = TRUE /\ job' = job
=============================================================================
