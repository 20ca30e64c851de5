------------------------------- MODULE MCStats -------------------------------
(* Evaluation as a machine that reads forecast/target pairs in chunks, keeps  *)
(* running (sum, weight) per statistic and forms scores at the end.  Checked: *)
(* chunked sums equal the definition over all pairs, the contingency table    *)
(* partitions the non-missing pairs, and the scores satisfy their mutual       *)
(* identities and bounds.                                                     *)
EXTENDS Stats, Json
CONSTANTS Lo, Hi, MaxLen, EmitLen
VARIABLES chunks, cur, tot
vars == <<chunks, cur, tot>>
Vals == (Lo..Hi) \cup {NaN}
StatNames == {"TP", "TN", "FP", "FN", "Error", "AbsoluteError", "SquaredError"}
\* Pairs with a missing value are skipped here (their effect is to make a mean
\* undefined or to be skipped; both are covered by NSum and by Skip below).
Flat == FoldLeft(LAMBDA a, c : a \o c, <<>>, chunks)
N == Len(Flat)
Wt(i) == 1 + (i % 3)
Good(i) == Flat[i][1] # NaN /\ Flat[i][2] # NaN
Zero == [s \in StatNames |-> <<0, 0>>]
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Init == chunks = <<>> /\ cur = Zero /\ tot = Zero
Contribution(s, p, i) == IF p[1] = NaN \/ p[2] = NaN THEN <<0, 0>> ELSE <<Wt(i) * Pair(s, p), Wt(i)>>
Read(p) == /\ chunks # <<>> /\ N < MaxLen
           /\ chunks' = [chunks EXCEPT ![Len(chunks)] = Append(@, p)]
           /\ cur' = [s \in StatNames |-> Plus(cur[s], Contribution(s, p, N + 1))]
           /\ UNCHANGED tot
Cut == /\ IF chunks = <<>> THEN TRUE ELSE chunks[Len(chunks)] # <<>>
       /\ N < MaxLen
       /\ chunks' = Append(chunks, <<>>)
       /\ tot' = [s \in StatNames |-> Plus(tot[s], cur[s])]
       /\ cur' = Zero
Done == UNCHANGED vars
Next == (\E p \in Vals \X Vals : Read(p)) \/ Cut \/ Done
Spec == Init /\ [][Next]_vars

Sum(s) == Plus(tot[s], cur[s])
G == {i \in 1..N : Good(i)}
ChunksIrrelevant == \A s \in StatNames : Sum(s) = MeanOf(G, LAMBDA i : Pair(s, Flat[i]), Wt)
NanPropagates == (\E i \in 1..N : ~Good(i)) =>
  \A s \in StatNames : MeanOf(1..N, LAMBDA i : Pair(s, Flat[i]), Wt)[1] = NaN
TP == Sum("TP")[1]
TN == Sum("TN")[1]
FP == Sum("FP")[1]
FN == Sum("FN")[1]
Partition == /\ TP + TN + FP + FN = Sum("TP")[2]
             /\ \A i \in G : Cardinality({s \in BoolStats : Pair(s, Flat[i]) = 1}) = 1
\* a/b <= c/d for positive denominators
Le(x, y) == (x[2] > 0 /\ y[2] > 0) => x[1] * y[2] <= y[1] * x[2]
Eq(x, y) == (x[2] # 0 /\ y[2] # 0) => x[1] * y[2] = y[1] * x[2]
Sc(m) == Score(m, TP, FP, FN, TN)
ScoreLaws ==
  /\ \A m \in Scores \ {"HSS", "ETS", "FrequencyBias"} : Le(<<0, 1>>, Sc(m)) /\ Le(Sc(m), <<1, 1>>)
  /\ Le(Sc("CSI"), Sc("F1Score")) /\ Le(Sc("ETS"), Sc("CSI"))
  \* HSS = 2 ETS / (1 + ETS)
  /\ Eq(Sc("HSS"), <<2 * Sc("ETS")[1], Sc("ETS")[1] + Sc("ETS")[2]>>)
  \* F1 is the harmonic mean of precision and recall
  /\ LET p == Sc("Precision")  r == Sc("Recall")
     IN TP > 0 => Eq(Sc("F1Score"), <<2 * p[1] * r[1], p[1] * r[2] + r[1] * p[2]>>)
  /\ Eq(Sc("FrequencyBias"), <<Sc("Recall")[1] * Sc("Precision")[2], Sc("Recall")[2] * MaxI(1, Sc("Precision")[1])>>)
     \/ TP = 0
  \* exchanging event and non-event, forecast and target
  /\ Score("Accuracy", TN, FN, FP, TP) = Sc("Accuracy")
  /\ Eq(Score("HSS", TN, FN, FP, TP), Sc("HSS"))
  /\ Score("CSI", TP, FN, FP, TN) = Sc("CSI")
  /\ Sc("FalseAlarmRate")[1] + Sc("Precision")[1] = Sc("Precision")[2]
  /\ Score("Recall", TP, FN, FP, TN) = Sc("Precision")
ErrorLaws ==
  LET b == Sum("Error")  a == Sum("AbsoluteError")  q == Sum("SquaredError")
  IN /\ Abs(b[1]) <= a[1]
     /\ a[1] * a[1] <= q[1] * q[2]
     /\ \A i \in G : /\ Pair("Error", <<Flat[i][2], Flat[i][1]>>) = -Pair("Error", Flat[i])
                     /\ Pair("SquaredError", <<Flat[i][2], Flat[i][1]>>) = Pair("SquaredError", Flat[i])
                     /\ \A u \in Lo..Hi : Pair("ErrorExceedance", <<Flat[i][1], Flat[i][2], u>>) >=
                                          Pair("ErrorExceedance", <<Flat[i][1], Flat[i][2], u + 1>>)
Emit == (N = EmitLen /\ chunks[Len(chunks)] # <<>>) => PrintT("CASE " \o ToJson([chunks |-> chunks]))
=============================================================================
