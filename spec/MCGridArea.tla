----------------------------- MODULE MCGridArea -----------------------------
(* Latitude axes are grown northwards one latitude at a time; the laws of the *)
(* band areas are checked on every axis, and the sine table on a walk.        *)
EXTENDS GridArea, Json
CONSTANTS Step, MaxLen, CheckTable
VARIABLES axis, k
vars == <<axis, k>>
Dom == {q \in (-360)..360 : q % Step = 0}
Init == axis = <<>> /\ k = 0
Grow == /\ Len(axis) < MaxLen /\ k = 0
        /\ \E q \in Dom : /\ (IF axis = <<>> THEN TRUE ELSE q > axis[Len(axis)])
                          /\ axis' = Append(axis, q)
        /\ UNCHANGED k
Walk == CheckTable /\ axis = <<>> /\ k < 720 /\ k' = k + 1 /\ UNCHANGED axis
Done == UNCHANGED vars
Next == Grow \/ Walk \/ Done
Spec == Init /\ [][Next]_vars
Rev(x) == [i \in DOMAIN x |-> x[Len(x) + 1 - i]]
Mirror(x) == [i \in DOMAIN x |-> -x[i]]
N == Len(axis)
Ready == N >= 2
\* The cells tile the sphere between the outermost boundaries.
Tile == Ready => /\ \A i \in 1..(N - 1) : Above(axis, i) = Below(axis, i + 1)
                 /\ BandTotal(axis) = Sin8(Above(axis, N)) - Sin8(Below(axis, 1))
Inside == Ready => \A i \in 1..N : /\ Below(axis, i) <= 2 * axis[i] /\ 2 * axis[i] <= Above(axis, i)
                                   /\ Below(axis, i) >= -Pole /\ Above(axis, i) <= Pole
Positive == Ready => \A i \in 1..N : Band(axis, i) > 0
OrderFree == Ready => Bands(Rev(axis)) = Rev(Bands(axis))
Neighbours == Ready => Bands(axis) = OrderedBands(axis) /\ Bands(Rev(axis)) = OrderedBands(Rev(axis))
NorthSouth == Ready => Bands(Rev(Mirror(axis))) = Rev(Bands(axis))
\* Polar points represent caps: no more than the band of the same width next
\* to them would be.
PolarCap == Ready => (axis[N] = 360 => Above(axis, N) = Pole)
\* Identities that determine the table (tolerances: rounding of the entries).
S2 == WMul(SinScale, SinScale)
SqSum(a, b) == \* a^2 + b^2 as limbs
  LET p == WMul(a, a)  q == WMul(b, b)
      l == p[3] + q[3]  m == p[2] + q[2] + (l \div WB)
  IN <<p[1] + q[1] + (m \div WB), m % WB, l % WB>>
Table ==
  /\ Sin8(0) = 0 /\ Sin8(720) = SinScale /\ Sin8(240) * 2 = SinScale
  /\ (k < 720 => Sin8(k) < Sin8(k + 1))
  /\ (axis = <<>> =>
       LET s == Sin8(k)  c == Sin8(720 - k)
       IN /\ WLeq(SqSum(Pos(s - 1), Pos(c - 1)), S2) /\ WLeq(S2, SqSum(s + 1, c + 1))
          /\ (2 * k <= 720 => /\ WLeq(WMul(Pos(s - 1), Pos(2 * c - 2)), WMul(SinScale, Sin8(2 * k) + 1))
                              /\ WLeq(WMul(SinScale, Pos(Sin8(2 * k) - 1)), WMul(s + 1, 2 * c + 2))))
Emit == (Ready /\ k = 0) => PrintT("CASE " \o ToJson([axis |-> axis]))
=============================================================================
