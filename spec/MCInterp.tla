------------------------------ MODULE MCInterp ------------------------------
(* An axis is built point by point, then a target position sweeps across it. *)
EXTENDS Interp, Json
CONSTANTS Lo, Hi, MaxPts
VARIABLES axis, t, phase
vars == <<axis, t, phase>>
Dom == (-Lo)..Hi
Init == axis \in {{x} : x \in 0..(Full - 1)} /\ t = -Lo /\ phase = "build"
Add == /\ phase = "build" /\ Cardinality(axis) < MaxPts
       /\ \E x \in 0..(Full - 1) : x > Max(axis) /\ axis' = axis \cup {x}
       /\ UNCHANGED <<t, phase>>
Start == phase = "build" /\ phase' = "sweep" /\ UNCHANGED <<axis, t>>
Sweep == phase = "sweep" /\ t < Hi /\ t' = t + 1 /\ UNCHANGED <<axis, phase>>
Done == phase = "sweep" /\ t = Hi /\ UNCHANGED vars
Next == Add \/ Start \/ Sweep \/ Done
Spec == Init /\ [][Next]_vars
Lks == {Linear(axis, t, TRUE), Linear(axis, t, FALSE), LinearWrap(axis, t)}
SumW(l) == MapThenSumSet(LAMBDA x : l.w[x], DOMAIN l.w)
Unity == \A l \in Lks : l.st = "ok" => l.den > 0 /\ SumW(l) = l.den
Interpolates == \A l \in Lks : (l.st = "ok" /\ t \in axis) => l.w = (t :> 1)
\* A field that is linear along the axis comes back exactly.
Reproduces == \A l \in {Linear(axis, t, TRUE), Linear(axis, t, FALSE)} :
   l.st = "ok" => MapThenSumSet(LAMBDA x : l.w[x] * x, DOMAIN l.w) = l.den * t
Convex == (t >= Min(axis) /\ t <= Max(axis)) =>
   \A x \in DOMAIN Linear(axis, t, TRUE).w : Linear(axis, t, TRUE).w[x] > 0
WrapConvex == \A x \in DOMAIN LinearWrap(axis, t).w : LinearWrap(axis, t).w[x] > 0
NoExtrapolation == (Linear(axis, t, FALSE).st = "missing") <=> (t < Min(axis) \/ t > Max(axis))
Inside == Linear(axis, t, FALSE).st = "ok" => Linear(axis, t, FALSE) = Linear(axis, t, TRUE)
Shift(f, k) == [y \in {x + k : x \in DOMAIN f} |-> f[y - k]]
Periodic == \A k \in {-1, 1} :
   /\ LinearWrap(axis, t + k * Full) = LinearWrap(axis, t)
   /\ LinearWrap({x + k * Full : x \in axis}, t).w = Shift(LinearWrap(axis, t).w, k * Full)
   /\ NearestWrap(axis, t + k * Full) = NearestWrap(axis, t)
Rotate == LET l == LinearWrap({(x + 1) % Full : x \in axis}, t + 1)
          IN {<<x, l.w[x]>> : x \in DOMAIN l.w} = {<<(x + 1) % Full, LinearWrap(axis, t).w[x]>> : x \in DOMAIN LinearWrap(axis, t).w}
\* Away from the seam wrapping changes nothing.
WrapInside == (t >= Min(axis) /\ t <= Max(axis)) => LinearWrap(axis, t).w = Linear(axis, t, TRUE).w
NearestIsHeavier == (Linear(axis, t, FALSE).st = "ok") =>
   \A x \in Nearest(axis, t, TRUE) : \A y \in DOMAIN Linear(axis, t, TRUE).w :
      x \in DOMAIN Linear(axis, t, TRUE).w /\ Linear(axis, t, TRUE).w[x] >= Linear(axis, t, TRUE).w[y]
Emit == (phase = "sweep" /\ t = -Lo) => PrintT("CASE " \o ToJson([axis |-> SetToSeq(axis)]))
=============================================================================
