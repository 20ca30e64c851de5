"""Writes spec/SinTable.tla: sin(k/8 degrees) for k = 0..720, scaled by 5e8.
The table is validated by MCGridArea (Pythagoras, double angle, recurrence)."""
import math, os
S = 500000000
v = [round(S * math.sin(math.radians(k / 8))) for k in range(721)]
rows = [', '.join(map(str, v[i:i + 12])) for i in range(0, 721, 12)]
t = """------------------------------ MODULE SinTable ------------------------------
(* sin(k/8 degrees), k = 0..720, in units of 1/SinScale.  The values are not   *)
(* trusted: MCGridArea checks them against the identities defining the sine.   *)
EXTENDS Integers, Sequences
SinScale == %d
SinTab == <<
%s >>
Sin8(k) == IF k >= 0 THEN SinTab[k + 1] ELSE -SinTab[1 - k]
=============================================================================
""" % (S, ',\n'.join('  ' + r for r in rows))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'SinTable.tla'), 'w').write(t)
