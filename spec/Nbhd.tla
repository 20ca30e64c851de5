-------------------------------- MODULE Nbhd --------------------------------
(* C22.  Neighbourhood fractions on a latitude x longitude grid.              *)
(* A window of odd size n has h = (n-1)/2 cells on every side.  The fraction  *)
(* at a cell is (sum over the window) / n^2; the outermost h rows, and the    *)
(* outermost h columns unless longitudes wrap around, hold no fraction and    *)
(* count as zero.  Size 1 is the field itself.                                *)
EXTENDS LArr, Stats

Half(n) == (n - 1) \div 2
Wrap(j, m) == ((j - 1) % m) + 1
\* Cells of the window around (i, j) in a grid of ni x nj cells; {} where the
\* fraction is not available.
NoFraction(i, j, ni, nj, n, wrap) ==
  /\ n > 1
  /\ \/ i <= Half(n) \/ i > ni - Half(n)
     \/ ~wrap /\ (j <= Half(n) \/ j > nj - Half(n))
Window(i, j, ni, nj, n, wrap) ==
  IF NoFraction(i, j, ni, nj, n, wrap) THEN {}
  ELSE {<<i + di, Wrap(j + dj, nj)>> : di \in -Half(n)..Half(n), dj \in -Half(n)..Half(n)}
\* A window wider than the circle would count columns twice.
WindowFits(nj, n) == n <= nj

\* ---- labelled arrays with dimensions latitude and longitude
Lat == "latitude"
Lon == "longitude"
CellsAt(a, g, n, wrap) ==
  LET la == LabelsOf(a, Lat)  lo == LabelsOf(a, Lon)
  IN {[g EXCEPT ![Lat] = la[c[1]], ![Lon] = lo[c[2]]] :
       c \in Window(PosOf(a, Axis(a, Lat), g[Lat]), PosOf(a, Axis(a, Lon), g[Lon]), Len(la), Len(lo), n, wrap)}
\* Sum over the window (numerator of the fraction, denominator n^2).
Count(a, g, n, wrap) == NSum(CellsAt(a, g, n, wrap), LAMBDA c : ValAt(a, c))
\* A window with any masked cell, or none at all, is masked.
Usable(m, g, n, wrap) ==
  LET C == CellsAt(m, g, n, wrap)
  IN C # {} /\ \A c \in C : ValAt(m, c) = 1

\* Statistics in units of 1/n^4; kp, kt are window sums (NaN when missing).
FracStat(s, kp, kt) ==
  CASE s = "SquaredFractionsError" -> LET d == NSub(kp, kt) IN NMul(d, d)
    [] s = "SquaredPredictionFraction" -> NMul(kp, kp)
    [] s = "SquaredTargetFraction" -> NMul(kt, kt)
\* Fractions skill score from the (weighted) sums of the three statistics.
Skill(sfe, spf, stf) == <<NSub(NAdd(spf, stf), sfe), NAdd(spf, stf)>>
=============================================================================
