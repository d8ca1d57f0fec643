-------------------------------- MODULE MC_VM --------------------------------
(***************************************************************************)
(* The stack machine against the meaning of expression trees.              *)
(*                                                                         *)
(* A behaviour builds a suffix program instruction by instruction, any     *)
(* instruction after any other, ill-typed and incomplete programs          *)
(* included.  Beside the program it keeps a stack of expression trees and  *)
(* gives them their meaning by structural recursion (Den), with no machine *)
(* involved.  The machine must agree at every length, take exactly the     *)
(* operands it needs, keep failing once it failed, and agree on any        *)
(* splitting of the program.                                               *)
(***************************************************************************)
EXTENDS ExprVM

\* Bound on the length of programs
CONSTANT N

I4(n) == I32(IntOf(n, 4))
I8(n) == I64(IntOf(n, 8))
C(v) == Ins("const", v[1], v, 0)
V(t, i) == Ins("var", t, Null, i)

Row == <<I4(7), Null, Str(<<97, 66>>), True>>

\* Non-commutative operators of one, two and three operands, failing ones, NULL
Instructions == {C(I4(3)), V(1, 0), V(1, 1), Ins("null", 1, Null, 0), V(7, 2), V(3, 3), C(I8(40)),
                 OpIns("sub", 1), OpIns("div", 1), OpIns("neg", 1), OpIns("lt", 1), OpIns("and", 0), OpIns("not", 0), OpIns("is_null", 1),
                 OpIns("cast", 33), OpIns("cast_c", 18), OpIns("sub", 2), OpIns("fun", 46), OpIns("fun", 36), OpIns("add", 7)}

Leaf(x) == [x |-> x, kids |-> <<>>]
Node(x, kids) == [x |-> x, kids |-> kids]
IsLeaf(x) == x.n \in {"null", "const", "var"}

\* The meaning of a tree
RECURSIVE Den(_)
Den(e) ==
  IF e.x.n = "var" THEN Row[e.x.i + 1]
  ELSE IF IsLeaf(e.x) THEN e.x.v
  ELSE LET vs == [i \in 1..Len(e.kids) |-> Den(e.kids[i])]
       IN IF \E i \in 1..Len(vs) : ~IsValue(vs[i])
          THEN vs[CHOOSE i \in 1..Len(vs) : ~IsValue(vs[i]) /\ \A j \in 1..(i - 1) : IsValue(vs[j])]
          ELSE Apply(e.x.n, e.x.t, vs)

\* Are all operands of the types the operators declare?
RECURSIVE WellTyped(_)
TypeOfTree(e) == InsType(e.x)
WellTyped(e) ==
  IF IsLeaf(e.x) THEN e.x.n # "var" \/ e.x.t \in Types
  ELSE \A i \in 1..Len(e.kids) : WellTyped(e.kids[i]) /\ TypeOfTree(e.kids[i]) = ArgTypes(e.x.n, e.x.t)[i]

VARIABLES prog, trees, m
vars == <<prog, trees, m>>

\* trees: the forest encoded so far, <<FALSE, ...>> once operands were missing
Init == prog = <<>> /\ trees = <<TRUE, <<>>>> /\ m = VM("ok", <<>>)
Next ==
  /\ Len(prog) < N
  /\ m.st = "ok"        \* what a failed machine does is seen at the next length
  /\ \E x \in Instructions :
       /\ prog' = Append(prog, x)
       /\ m' = Step(m, x, Bound(Row))
       /\ trees' = LET f == trees[2] n == IF IsLeaf(x) THEN 0 ELSE Arity(x.n, x.t)
                   IN IF Len(f) < n THEN <<FALSE, <<>>>>
                      ELSE <<TRUE, Append(SubSeq(f, 1, Len(f) - n), Node(x, SubSeq(f, Len(f) - n + 1, Len(f))))>>
Spec == Init /\ [][Next]_vars

Dens == [i \in 1..Len(trees[2]) |-> Den(trees[2][i])]
Failing == {i \in 1..Len(Dens) : ~IsValue(Dens[i])}

\* One result per encoded expression, in order, or the failure of one of them
Correct ==
  IF ~trees[1] THEN m.st = "err"
  ELSE IF Failing = {} THEN m = VM("ok", Dens)
  ELSE \E i \in Failing : m.st = (IF Dens[i] = Limit THEN "limit" ELSE IF IsErr(Dens[i]) THEN "err" ELSE "unspec")

\* Step by step, at once, and by resuming anywhere: all the same
Splits ==
  /\ Run(prog, Bound(Row)) = m
  /\ Run(prog, Bound(Row)) = Run(prog, Bound(Row \o <<True>>))       \* columns that are not named do not matter
  /\ m.st # "ok" => m.stack = <<>> /\ \A x \in {C(I4(1)), OpIns("is_null", 1)} : Run(Append(prog, x), Bound(Row)) = m

\* The decoder yields the program back, up to its end and no further
Decoded ==
  LET c == Encode(prog)
      d == DecodeExpr(c, 1)
      d0 == DecodeExpr(c \o <<0, 131, 1>>, 1)
  IN /\ d = [ok |-> TRUE, p |-> Len(c) + 1, prog |-> prog]
     /\ d0 = [ok |-> TRUE, p |-> Len(c) + 2, prog |-> prog]

\* A well-typed program does not fail, but for checked conversions, and has the declared types
Declared ==
  (trees[1] /\ trees[2] # <<>> /\ \A i \in 1..Len(trees[2]) : WellTyped(trees[2][i])) =>
    /\ m.st = "ok" \/ (m.st = "limit" /\ \E i \in 1..Len(prog) : prog[i].n = "cast_c")
    /\ (m.st = "ok" /\ Top(m.stack) # Null) => Top(m.stack)[1] = ProgType(prog)

\* Without a tuple exactly the variables fail
NoBinding == Run(prog, NoTuple).st = (IF \E i \in 1..Len(prog) : prog[i].n = "var"
                                        /\ \A j \in 1..(i - 1) : Run(SubSeq(prog, 1, j), NoTuple).st = "ok"
                                      THEN "err" ELSE Run(prog, NoTuple).st)
=============================================================================
