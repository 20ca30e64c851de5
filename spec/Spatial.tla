------------------------------- MODULE Spatial -------------------------------
(* C12. Which spatial bins a point belongs to.  Angles are integers; Full is  *)
(* the number of units in the whole circle.                                   *)
EXTENDS LArr
CONSTANT Full

\* The arc running eastwards from w to e.  Limits that differ by whole turns
\* stand for the whole circle.
Turns(w, e) == (e - w) % Full = 0
InArc(lon, w, e) == Turns(w, e) \/ (lon - w) % Full <= (e - w) % Full
InBand(lat, lo, hi) == lo <= lat /\ lat <= hi
InBox(lat, lon, b) == InBand(lat, b.s, b.n) /\ InArc(lon, b.w, b.e)
InHalfOpen(x, a, b) == IsNum(x) /\ a <= x /\ x < b
CeilDiv(a, b) == -((-a) \div b)
\* Starts of consecutive bins of the given width covering lo..hi.
Starts(lo, hi, width) == {lo + k * width : k \in 0..(CeilDiv(hi - lo, width) - 1)}
=============================================================================
