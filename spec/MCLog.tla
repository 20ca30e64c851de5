-------------------------------- MODULE MCLog --------------------------------
(* The table of logarithms satisfies ln(ab) = ln a + ln b, is increasing, and  *)
(* its increments lie between 1/(n+1) and 1/n, which fixes its scale.          *)
EXTENDS LogTable, TLC
VARIABLE n
Init == n = 1
Next == n < LnMax /\ n' = n + 1
Spec == Init /\ [][Next]_n
AbsL(x) == IF x < 0 THEN -x ELSE x
Product == \A m \in 1..(LnMax \div n) : AbsL(Ln6(n * m) - Ln6(n) - Ln6(m)) <= 2
Slope == n < LnMax => LET d == Ln6(n + 1) - Ln6(n)
                      IN (d + 1) * (n + 1) >= 1000000 /\ (d - 1) * n <= 1000000
=============================================================================
