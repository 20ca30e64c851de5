------------------------------- MODULE MCNbhd -------------------------------
(* Two event fields are painted cell by cell; once complete, every window     *)
(* size and wrapping is examined.                                             *)
EXTENDS Nbhd, Json
CONSTANTS NI, NJ, Sizes, Both
VARIABLES p, t
vars == <<p, t>>
Full(f) == Len(f) = NI * NJ
Init == p = <<>> /\ t = <<>>
\* Without Both, the target is the forecast displaced by one cell (enough to
\* exercise every window; the pairs are enumerated on the smaller grid).
Displaced(f) == [k \in 1..(NI * NJ) |-> f[((k - 1) \div NJ) * NJ + Wrap(((k - 1) % NJ) + 2, NJ)]]
Paint == \/ ~Full(p) /\ \E b \in {0, 1} : p' = Append(p, b) /\ t' = t
         \/ Both /\ Full(p) /\ ~Full(t) /\ \E b \in {0, 1} : t' = Append(t, b) /\ p' = p
         \/ ~Both /\ Full(p) /\ t = <<>> /\ t' = Displaced(p) /\ p' = p
Spec == Init /\ [][Paint \/ UNCHANGED vars]_vars

At(f, c) == f[(c[1] - 1) * NJ + c[2]]
K(f, i, j, n, w) == SumOver(Window(i, j, NI, NJ, n, w), LAMBDA c : At(f, c))
Grid == (1..NI) \X (1..NJ)
Cfg == Sizes \X BOOLEAN
Complete == Full(p) /\ Full(t)
SumSt(s, n, w) == SumOver(Grid, LAMBDA c : FracStat(s, K(p, c[1], c[2], n, w), K(t, c[1], c[2], n, w)))

CountBounds == Full(p) => \A x \in Cfg : \A c \in Grid :
  LET k == K(p, c[1], c[2], x[1], x[2])
  IN 0 <= k /\ k <= x[1] * x[1]
SizeOne == Full(p) => \A w \in BOOLEAN : \A c \in Grid : K(p, c[1], c[2], 1, w) = At(p, c)
\* Turning the field around the circle turns the fractions with it.
Turns == Full(p) => \A n \in Sizes : \A c \in Grid :
  K(Displaced(p), c[1], c[2], n, TRUE) = K(p, c[1], Wrap(c[2] + 1, NJ), n, TRUE)
\* Wrapping changes nothing away from the seam.
WrapOnlyAtSeam == Full(p) => \A n \in Sizes : \A c \in Grid :
  c[2] > Half(n) /\ c[2] <= NJ - Half(n) => K(p, c[1], c[2], n, TRUE) = K(p, c[1], c[2], n, FALSE)
\* On the circle every column is seen by n windows of each row.
RowTotals == Full(p) => \A n \in Sizes : \A i \in 1..NI :
  i > Half(n) /\ i <= NI - Half(n) =>
    SumOver(1..NJ, LAMBDA j : K(p, i, j, n, TRUE)) =
      n * SumOver((i - Half(n))..(i + Half(n)), LAMBDA r : SumOver(1..NJ, LAMBDA j : At(p, <<r, j>>)))
SkillLaws == Complete => \A x \in Cfg :
  LET e == SumSt("SquaredFractionsError", x[1], x[2])
      a == SumSt("SquaredPredictionFraction", x[1], x[2])
      b == SumSt("SquaredTargetFraction", x[1], x[2])
      q == Skill(e, a, b)
  IN /\ 0 <= q[1] /\ q[1] <= q[2]
     /\ (q[2] > 0 /\ q[1] = q[2]) <=> (q[2] > 0 /\ \A c \in Grid : K(p, c[1], c[2], x[1], x[2]) = K(t, c[1], c[2], x[1], x[2]))
     /\ p = t => e = 0
Emit == Complete => PrintT("CASE " \o ToJson([p |-> p, t |-> t, ni |-> NI, nj |-> NJ]))
=============================================================================
