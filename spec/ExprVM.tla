------------------------------- MODULE ExprVM -------------------------------
(***************************************************************************)
(* The stack machine that evaluates decoded expressions.                   *)
(*                                                                         *)
(* Step is one instruction; Run is the whole program.  The status of a     *)
(* machine is "ok", "err" (fails with an exception), "limit" (fails with   *)
(* the range error) or "unspec" (from here on anything goes, except that   *)
(* the process must survive).                                              *)
(***************************************************************************)
EXTENDS Wire

NoTuple == <<FALSE, <<>>>>        \* no tuple bound
Bound(t) == <<TRUE, t>>

VM(st, stack) == [st |-> st, stack |-> stack]

Push(m, v) ==
  IF IsErr(v) THEN VM(IF v = Limit THEN "limit" ELSE "err", <<>>)
  ELSE IF IsUnspec(v) THEN VM("unspec", <<>>)
  ELSE VM("ok", Append(m.stack, Force(v)))

Step(m, x, tuple) ==
  CASE x.n \in {"null", "const"} -> Push(m, x.v)
    [] x.n = "var" ->
         IF ~tuple[1] THEN VM("err", <<>>)
         ELSE IF x.i < 0 \/ x.i >= Len(tuple[2]) THEN VM("unspec", <<>>)   \* the caller's duty
         ELSE Push(m, tuple[2][x.i + 1])
    [] OTHER ->
         LET n == Arity(x.n, x.t)
             d == Len(m.stack)
         IN IF d < n THEN VM("err", <<>>)
            ELSE Push(VM("ok", SubSeq(m.stack, 1, d - n)),
                      TLCEval(Apply(x.n, x.t, SubSeq(m.stack, d - n + 1, d))))

\* A machine that failed stays so
Run(prog, tuple) == Fold(LAMBDA m, x : IF m.st = "ok" THEN TLCEval(Step(m, x, tuple)) ELSE m, VM("ok", <<>>), prog)

\* The declared type of a program: that of its last instruction
InsType(x) == IF x.n \in {"null", "const", "var"} THEN x.t ELSE ResType(x.n, x.t)
ProgType(prog) == InsType(prog[Len(prog)])

\* The result on top of the stack
Top(stack) == stack[Len(stack)]

\* Does an observed value agree with the specified one, including results of
\* elementary functions, which are specified up to rounding errors?
Matches(v, o) ==
  IF v[1] = -3
  THEN o[1] = TDouble /\ ElemAgrees(v[2][1], SubSeq(v[2], 2, 9), o[2])
  ELSE Agrees(v, o)
MatchesAll(vs, os) == Len(vs) = Len(os) /\ \A i \in 1..Len(vs) : Matches(vs[i], os[i])
=============================================================================
