------------------------------ MODULE MCTTable ------------------------------
(* Laws of the t table.  df = 1: tan of (1 - alpha) * 90 degrees.  df = 2 and *)
(* df = 4: closed forms of the distribution function.  All: decreasing in     *)
(* alpha and in df; the density is unimodal, so quantiles are convex in the   *)
(* level below alpha.                                                         *)
EXTENDS VLib, TTable, SinTable, Wide
VARIABLE x
D1(i) == LET a8 == 720 - (720 * TAlpha[i]) \div 1000  \* angle in eighths of a degree
             s == Sin8(a8) \div 100000  c == Sin8(720 - a8) \div 100000\* scale 5000
         IN (720 * TAlpha[i]) % 1000 = 0 => Abs(TTab[1][i] * c - 1000 * s) <= c + TTab[1][i] + 1000
\* df = 2: z^2 * alpha (2 - alpha) = 2 (1 - alpha)^2
D2(i) == LET a == TAlpha[i] z == TTab[2][i]
             lhs(y) == WMul(y * y, a * (2000 - a))
             rhs == WMul(1000 * (1000 - a), 2000 * (1000 - a))
         IN z < 30000 => WLeq(lhs(z - 1), rhs) /\ WLeq(rhs, lhs(z + 1))
\* df = 4: with s = z / sqrt(4 + z^2), 1 - alpha = s (3 - s^2) / 2; checked as
\* a square: (1-alpha)^2 4 (4+z^2)^3 = z^2 (12 + 2 z^2)^2 up to rounding.
D4(i) == LET z == TTab[4][i]
             \* scale z^2 by 1000: q
             q(y) == (y * y) \div 1000
             u(y) == (1000 * q(y)) \div (4000 + q(y))             \* s^2 in 1/1000
             f(y) == (u(y) * (((3000 - u(y)) * (3000 - u(y))) \div 1000)) \div 4     \* (1-alpha)^2 in 1e6... /1000
             want == ((1000 - TAlpha[i]) * (1000 - TAlpha[i])) \div 1000
         IN z < 40000 => Abs(f(z) \div 1000 - want) <= 4
ASSUME Len(TTab) = TDfMax /\ \A k \in 1..TDfMax : Len(TTab[k]) = Len(TAlpha)
ASSUME \A i \in DOMAIN TAlpha : D1(i) /\ D2(i) /\ D4(i)
ASSUME \A k \in 1..TDfMax : \A i \in 1..(Len(TAlpha) - 1) : TAlpha[i] > TAlpha[i + 1] /\ TTab[k][i] < TTab[k][i + 1]
ASSUME \A k \in 1..(TDfMax - 1) : \A i \in DOMAIN TAlpha : TTab[k][i] >= TTab[k + 1][i]
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
