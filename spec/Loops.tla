-------------------------------- MODULE Loops --------------------------------
(***************************************************************************)
(* Iteration.  The definitions are the specification; the methods of       *)
(* java/Loops.java do the same without a recursion of the evaluator.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* The same value, evaluated completely
Force(x) == x

\* Applies f as long as p holds
Iterate(p(_), f(_), x) ==
  LET RECURSIVE It(_)
      It(y) == IF p(y) THEN It(TLCEval(f(y))) ELSE y
  IN It(x)

\* The first number from i on that p does not hold of, but at most n + 1
SkipWhile(p(_), i, n) == Iterate(LAMBDA k : k <= n /\ p(k), LAMBDA k : k + 1, i)

\* op(...op(op(x, s[1]), s[2])..., s[n])
Fold(op(_, _), x, s) ==
  LET RECURSIVE F(_, _)
      F(y, i) == IF i > Len(s) THEN y ELSE F(TLCEval(op(y, s[i])), i + 1)
  IN F(x, 1)
=============================================================================
