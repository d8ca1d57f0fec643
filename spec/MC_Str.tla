------------------------------- MODULE MC_Str -------------------------------
(***************************************************************************)
(* The string functions against definitions by positions: a result is the  *)
(* subsequence of the characters at a set of positions.  All strings of up *)
(* to NStr characters, all positions and lengths around and far beyond     *)
(* them.                                                                   *)
(***************************************************************************)
EXTENDS Calc, FiniteSets

CONSTANT NStr

Chars == {32, 97, 66, 0, 10, 200}
Far == {-2147483647 - 1, -1073741824, 1073741824, 2147483647}
Positions == (0 - NStr - 2)..(NStr + 2) \cup Far

VARIABLE s
Init == s = <<>>
Next == Len(s) < NStr /\ \E c \in Chars : s' = Append(s, c)
Spec == Init /\ [][Next]_s

F(t, a) == Apply("fun", t, a)
I(n) == I32(IF n = -2147483647 - 1 THEN IntMin(4) ELSE IntOf(n, 4))
\* The characters of s at the positions (from 1) in P
Pick(P) == LET n == Cardinality({i \in 1..Len(s) : i \in P})
              RECURSIVE pick(_, _)
              pick(i, acc) == IF i > Len(s) THEN acc ELSE pick(i + 1, IF i \in P THEN Append(acc, s[i]) ELSE acc)
          IN pick(1, <<>>)
P == {i \in 1..Len(s) : TRUE}
S == Str(s)

Cuts ==
  \A n \in Positions :
    /\ F(36, <<S, I(n)>>) = Str(Pick({i \in P : i <= n}))                       \* LEFT
    /\ F(37, <<S, I(n)>>) = Str(Pick({i \in P : Len(s) - i < n}))               \* RIGHT
    /\ F(47, <<S, I(n)>>) = Str(Pick(IF n = 0 THEN {} ELSE IF n > 0 THEN {i \in P : i >= n}
                                    ELSE IF Len(s) + n < 0 THEN {} ELSE {i \in P : i - Len(s) - 1 >= n}))  \* MID
    /\ F(45, <<S, I(n)>>) = IF n > Len(s) THEN Err ELSE Str(Pick({i \in P : i > n}))                        \* SUBSTR
    \* halves
    /\ (n \in 0..Len(s)) => F(33, <<F(36, <<S, I(n)>>), F(37, <<S, I(Len(s) - n)>>)>>) = S
    /\ (n \in 0..Len(s)) => F(45, <<S, I(n)>>) = F(37, <<S, I(Len(s) - n)>>)
    /\ (n \in 1..Len(s)) => F(47, <<S, I(n)>>) = F(45, <<S, I(n - 1)>>)
    /\ (n \in 1..Len(s)) => F(47, <<S, I(0 - n)>>) = F(37, <<S, I(n)>>)

Slices ==
  \A n \in Positions : \A m \in Positions :
    /\ F(46, <<S, I(n), I(m)>>) = IF m <= 0 THEN Str(<<>>) ELSE F(36, <<F(47, <<S, I(n)>>), I(m)>>)        \* MID
    /\ LET from == IF n < 0 THEN 0 ELSE n
       IN F(44, <<S, I(n), I(m)>>) = IF n > Len(s) THEN Err
                                      ELSE IF m < from THEN F(45, <<S, I(n)>>)
                                      ELSE Str(Pick({i \in P : i > from /\ i <= m}))
    /\ (0 <= n /\ n <= m /\ m <= Len(s)) =>
         F(33, <<F(36, <<S, I(n)>>), F(33, <<F(44, <<S, I(n), I(m)>>), F(45, <<S, I(m)>>)>>)>>) = S

Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Trims ==
  LET l == F(40, <<S>>)
      r == F(42, <<S>>)
      b == F(38, <<S>>)
      solid == {i \in P : ~Blank(s[i])}
  IN /\ l = Str(Pick({i \in P : \E j \in solid : j <= i}))
     /\ r = Str(Pick({i \in P : \E j \in solid : j >= i}))
     /\ b = F(40, <<r>>) /\ b = F(42, <<l>>)
     /\ F(38, <<b>>) = b /\ F(40, <<l>>) = l /\ F(42, <<r>>) = r

Letters ==
  LET lo == F(34, <<S>>)
      up == F(35, <<S>>)
  IN /\ Len(lo[2]) = Len(s) /\ Len(up[2]) = Len(s)
     /\ F(34, <<up>>) = lo /\ F(35, <<lo>>) = up /\ F(34, <<lo>>) = lo
     /\ \A i \in P : s[i] \notin (65..90 \cup 97..122) => lo[2][i] = s[i] /\ up[2][i] = s[i]
     /\ \A i \in P : lo[2][i] \notin 65..90 /\ up[2][i] \notin 97..122

Concat ==
  /\ F(33, <<S, S>>) = Apply("add", 7, <<S, S>>)
  /\ F(33, <<S, S>>)[2] = s \o s
  /\ F(33, <<S, Str(<<>>)>>) = S /\ F(33, <<Str(<<>>), S>>) = S
=============================================================================
