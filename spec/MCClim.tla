------------------------------- MODULE MCClim -------------------------------
(* A clock with an explicit calendar walks through year ends and the end of   *)
(* February; the climatology entry of "initial time + lead" must be the one   *)
(* the clock shows however the valid time is split.  Also the laws of the     *)
(* interval scores and of SEEPS.                                              *)
EXTENDS Clim, Json, TLC
CONSTANTS Years, Steps, StepMin, Laws
VARIABLES now, y, doy, h, n
vars == <<now, y, doy, h, n>>
Leap(q) == (q % 4 = 0 /\ q % 100 # 0) \/ q % 400 = 0
YearLen(q) == IF Leap(q) THEN 366 ELSE 365
Starts(q) == {[d |-> 58], [d |-> YearLen(q) - 1]}   \* 27 February, the day before the last
Init == /\ y \in Years
        /\ doy \in {x.d : x \in Starts(y)}
        /\ h = 0 /\ n = 0
        /\ now = (DayNumber(y, 1, 1) + doy - 1) * 1440
Tick == /\ n < Steps
        /\ n' = n + 1
        /\ now' = now + StepMin
        /\ LET m == h * 60 + StepMin
               carry == m \div 1440
           IN /\ h' = (m % 1440) \div 60
              /\ IF doy + carry > YearLen(y) THEN doy' = doy + carry - YearLen(y) /\ y' = y + 1
                 ELSE doy' = doy + carry /\ y' = y
Spec == Init /\ [][Tick \/ UNCHANGED vars]_vars
Leads == {0, 60, 360, 720, 1440, 7200, 525600}
KeyIsClock == \A k \in Leads :
  LET init == now - k  key == ClimKey(init + k)
  IN key.dayofyear = doy /\ key.hour = h /\ key.dayofyear \in 1..YearLen(y)
\* A constant forecast has expected penalty 1 (twice: 2) under climatology:
\* dry a/b, light 2(b-a)/3b, heavy (b-a)/3b.
Law(f, a, b) ==
  LET d == Penalty2(f, "dry", a, b)  g == Penalty2(f, "light", a, b)  v == Penalty2(f, "heavy", a, b)
      den == d[2] * g[2] * v[2]
  IN 3 * a * d[1] * g[2] * v[2] + 2 * (b - a) * g[1] * d[2] * v[2] + (b - a) * v[1] * d[2] * g[2] = 2 * 3 * b * den
Equitable == Laws => \A b \in 2..14 : \A a \in 1..(b - 1) : \A f \in {"dry", "light", "heavy"} : Law(f, a, b)
Intervals == {<<a, b>> \in (0..4) \X (0..4) : a <= b}
JaccardLaws == Laws => \A I, J \in Intervals :
  LET d == JaccardDistance(I[1], I[2], J[1], J[2])
  IN /\ 0 <= d[1] /\ d[1] <= d[2]
     /\ d = JaccardDistance(J[1], J[2], I[1], I[2])
     /\ (d[1] = 0) <=> (I = J)
QuantileLaws == Laws => \A k \in 1..4 : \A x \in Tuples(k, 0..3) :
  /\ \A q \in 0..3 : QuantileQ(x, q) <= QuantileQ(x, q + 1)
  /\ QuantileQ(x, 0) = 4 * Min(RangeOf(x)) /\ QuantileQ(x, 4) = 4 * Max(RangeOf(x))
  /\ \A q \in 0..4 : QuantileQ([i \in DOMAIN x |-> 3 - x[i]], 4 - q) = 12 - QuantileQ(x, q)
Emit == PrintT("CASE " \o ToJson([now |-> now]))
=============================================================================
