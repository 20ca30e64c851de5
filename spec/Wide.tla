-------------------------------- MODULE Wide --------------------------------
(* Products of non-negative integers below 2^30 compared exactly: a product   *)
(* is <<h, m, l>> standing for h*2^30 + m*2^15 + l (TLC integers are 32 bit). *)
EXTENDS Integers
WB == 32768
WMul(a, b) ==
  LET a1 == a \div WB  a0 == a % WB
      b1 == b \div WB  b0 == b % WB
      l  == a0 * b0
      x  == a1 * b0
      y  == a0 * b1
      s  == (l \div WB) + (x % WB) + (y % WB)
  IN <<a1 * b1 + (x \div WB) + (y \div WB) + (s \div WB), s % WB, l % WB>>
WLeq(p, q) == \/ p[1] < q[1]
              \/ p[1] = q[1] /\ p[2] < q[2]
              \/ p[1] = q[1] /\ p[2] = q[2] /\ p[3] <= q[3]
Pos(x) == IF x < 0 THEN 0 ELSE x
\* a/b = c/d up to errors ta (in a and c) and tb (in b and d), all >= 0.
WRatioNear(a, b, c, d, ta, tb) ==
  /\ WLeq(WMul(Pos(a - ta), Pos(d - tb)), WMul(c + ta, b + tb))
  /\ WLeq(WMul(Pos(c - ta), Pos(b - tb)), WMul(a + ta, d + tb))
=============================================================================
