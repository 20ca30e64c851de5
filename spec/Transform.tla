------------------------------ MODULE Transform ------------------------------
(* C15.  Input transforms of wrapped metrics.  An array is a labelled array   *)
(* (LArr) whose values are exact fractions <<n, d>>; Miss is a missing value. *)
(* A chain is a sequence of transforms; each applies to forecasts, targets or *)
(* both, in the listed order.  A transform that is undefined for an array     *)
(* gives Bad.                                                                 *)
EXTENDS LArr, Calendar

Miss == <<0, 0>>
Bad == [dims |-> <<"!">>, labels |-> <<<<0>>>>, data |-> <<Miss>>]
IsBad(a) == a.dims = <<"!">>

RECURSIVE Gcd2(_, _)
Gcd2(a, b) == IF b = 0 THEN a ELSE Gcd2(b, a % b)
Rat(n, d) == LET g == Gcd2(Abs(n), d) IN IF g = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Quarter4(v) == IF v = NaN THEN Miss ELSE IF v = PInf THEN <<1, 0>> ELSE IF v = NInf THEN <<-1, 0>> ELSE Rat(v, 4)
\* infinite values are <<1, 0>> and <<-1, 0>>; opposite infinities have no sum
RInf(a) == a[2] = 0 /\ a # Miss
RLess(a, b) == IF RInf(a) \/ RInf(b) THEN a # b /\ (a = <<-1, 0>> \/ b = <<1, 0>>) ELSE a[1] * b[2] < b[1] * a[2]
RLeq(a, b) == IF RInf(a) \/ RInf(b) THEN a = b \/ a = <<-1, 0>> \/ b = <<1, 0>> ELSE a[1] * b[2] <= b[1] * a[2]
RAdd(a, b) == IF a = Miss \/ b = Miss THEN Miss
              ELSE IF RInf(a) THEN (IF RInf(b) /\ a # b THEN Miss ELSE a)
              ELSE IF RInf(b) THEN b
              ELSE Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a) == IF a = Miss THEN Miss ELSE <<-a[1], a[2]>>
RDivInt(a, k) == IF a = Miss THEN Miss ELSE Rat(a[1], a[2] * k)
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(Head(s), RSum(Tail(s)))
RBool(b) == IF b THEN <<1, 1>> ELSE <<0, 1>>

\* ---- arrays
Fractions(a) == [a EXCEPT !.data = TLCEval([k \in DOMAIN a.data |-> Quarter4(a.data[k])])]
Mk(dims, labels, f(_)) ==
  LET a == [dims |-> dims, labels |-> labels, data |-> <<>>]
  IN [a EXCEPT !.data = TLCEval([k \in 1..Size(a) |-> f(AsgAt(a, k))])]
MapV(a, f(_)) == [a EXCEPT !.data = TLCEval([k \in DOMAIN a.data |-> f(a.data[k])])]
On(o, a) == [d \in DimSet(a) |-> o[d]]
At(a, o) == ValAt(a, On(o, a))
Without(a, d) == [dims |-> SelectSeq(a.dims, LAMBDA x : x # d),
                  labels |-> LET keep == SelectSeq([i \in DOMAIN a.dims |-> i], LAMBDA i : a.dims[i] # d)
                             IN [k \in DOMAIN keep |-> a.labels[keep[k]]]]
\* the values along d at the other dimensions' assignment o
Along(a, d, o) == LET ls == LabelsOf(a, d) IN [i \in DOMAIN ls |-> At(a, o @@ (d :> ls[i]))]
Known(s) == SelectSeq(s, LAMBDA v : v # Miss)

\* ---- ensembles
Reduce(a, d, f(_)) ==
  IF d \notin DimSet(a) THEN Bad
  ELSE LET w == Without(a, d) IN Mk(w.dims, w.labels, LAMBDA o : f(Along(a, d, o)))
EnsMean(s, skipna) ==
  LET k == Known(s)
  IN IF skipna THEN (IF k = <<>> THEN Miss ELSE RDivInt(RSum(k), Len(k)))
     ELSE RDivInt(RSum(s), Len(s))
Weibull(s, skipna) == RDivInt(RSum(IF skipna THEN Known(s) ELSE s), Len(s) + 1)

\* ---- thresholds: an array with the threshold dimension and possibly others
TimeDims == {"valid_time", "init_time", "lead_time", "dayofyear"}
DayNo(m) == m \div 1440
\* where in the thresholds to look for an element at o of array a
ThrKey(thr, a, o, timed) ==
  [d \in DimSet(thr) |->
    IF timed /\ {"init_time", "lead_time"} \subseteq DimSet(a)
      THEN CASE d = "valid_time" -> o["init_time"] + o["lead_time"]
             [] d = "dayofyear" -> DayOfYear(DayNo(o["init_time"]))
             [] OTHER -> o[d]
    ELSE IF timed /\ d = "dayofyear" /\ "valid_time" \in DimSet(a)
      THEN DayOfYear(DayNo(o["valid_time"]))
    ELSE o[d]]
\* frame of an element-wise combination of a with thresholds
Combined(a, thr, timed) ==
  LET new == SelectSeq(thr.dims, LAMBDA d : d \notin DimSet(a) /\ ~(timed /\ d \in TimeDims))
      labs(d) == IF d \in DimSet(a) /\ d \in DimSet(thr) /\ ~(timed /\ d \in TimeDims)
                 THEN SelectSeq(LabelsOf(a, d), LAMBDA x : x \in LabelSet(thr, d))
                 ELSE IF d \in DimSet(a) THEN LabelsOf(a, d) ELSE LabelsOf(thr, d)
      ds == a.dims \o new
  IN [dims |-> ds, labels |-> [i \in DOMAIN ds |-> labs(ds[i])]]
Elementwise(a, thr, timed, f(_, _)) ==
  LET c == Combined(a, thr, timed)
      A0 == [dims |-> c.dims, labels |-> c.labels, data |-> <<>>]
  IN IF \E k \in 1..Size(A0) : ~HasAt(thr, ThrKey(thr, a, AsgAt(A0, k), timed)) THEN Bad
     ELSE Mk(c.dims, c.labels, LAMBDA o : f(At(a, o), ValAt(thr, ThrKey(thr, a, o, timed))))
\* strictly increasing along the threshold dimension d (a missing one is not)
Increasing(thr, d) ==
  LET w == Without(thr, d)
      B == [dims |-> w.dims, labels |-> w.labels, data |-> <<>>]
  IN \A k \in 1..Size(B) :
       LET s == Along(thr, d, AsgAt(B, k))
       IN \A i \in 1..Len(s) - 1 : /\ s[i] # Miss /\ s[i + 1] # Miss
                                   /\ RLess(s[i], s[i + 1])
AboveThr(v, x) == IF v = Miss THEN Miss ELSE RBool(RLess(x, v))
BelowThr(v, x, closed) ==
  IF v = Miss \/ x = Miss THEN Miss ELSE RBool(IF closed THEN RLeq(v, x) ELSE RLess(v, x))
Cdf(a, thr, d, closed, enforce) ==
  IF enforce /\ ~Increasing(thr, d) THEN Bad
  ELSE Elementwise(a, thr, TRUE, LAMBDA v, x : BelowThr(v, x, closed))
\* membership of (left, right] for consecutive thresholds; bins are named here
\* by the label of their left edge
BinsOf(a, thr, d, enforce) ==
  LET c == Cdf(a, thr, d, TRUE, enforce)
      ls == LabelsOf(c, d)
      succ(x) == LET i == CHOOSE j \in DOMAIN ls : ls[j] = x IN ls[i + 1]
  IN IF IsBad(c) THEN Bad
     ELSE Mk(c.dims, [i \in DOMAIN c.dims |-> IF c.dims[i] = d THEN SubSeq(ls, 1, Len(ls) - 1) ELSE c.labels[i]],
             LAMBDA o : RAdd(At(c, [o EXCEPT ![d] = succ(o[d])]), RNeg(At(c, o))))

\* ---- selections: by label or by position (counted from 0, or from the end)
Take(a, d, pos, one) ==
  LET i == Axis(a, d)
      ls == [k \in DOMAIN pos |-> a.labels[i][pos[k]]]
  IN IF one THEN LET w == Without(a, d) IN Mk(w.dims, w.labels, LAMBDA o : At(a, o @@ (d :> ls[1])))
     ELSE Mk(a.dims, [a.labels EXCEPT ![i] = ls], LAMBDA o : At(a, o))
PosOfLabel(ls, x) == CHOOSE k \in DOMAIN ls : ls[k] = x
SelOne(a, s) ==
  IF IsBad(a) \/ s.dim \notin DimSet(a) THEN Bad
  ELSE LET ls == LabelsOf(a, s.dim)
           n == Len(ls)
           norm(i) == IF i < 0 THEN i + n + 1 ELSE i + 1
           pos == CASE s.how \in {"label", "labels"} -> [k \in DOMAIN s.v |-> IF s.v[k] \in RangeOf(ls) THEN PosOfLabel(ls, s.v[k]) ELSE 0]
                    [] s.how = "between" -> SelectSeq([k \in 1..n |-> k], LAMBDA k : s.v[1] <= ls[k] /\ ls[k] <= s.v[2])
                    [] s.how \in {"index", "indices"} -> [k \in DOMAIN s.v |-> norm(s.v[k])]
                    [] s.how = "range" -> SelectSeq([k \in 1..n |-> k], LAMBDA k : k - 1 >= s.v[1] /\ k - 1 < s.v[2] /\ (k - 1 - s.v[1]) % s.v[3] = 0)
       IN IF \E k \in DOMAIN pos : pos[k] \notin 1..n THEN Bad
          ELSE Take(a, s.dim, pos, s.how \in {"label", "index"})
RECURSIVE SelAll(_, _)
SelAll(a, ss) == IF ss = <<>> THEN a ELSE SelAll(SelOne(a, Head(ss)), Tail(ss))

\* ---- shapes
RenameDims(a, pairs) ==
  IF \E i \in DOMAIN pairs : pairs[i][1] \notin DimSet(a) THEN Bad
  ELSE [a EXCEPT !.dims = [i \in DOMAIN a.dims |->
         IF \E j \in DOMAIN pairs : pairs[j][1] = a.dims[i]
         THEN pairs[CHOOSE j \in DOMAIN pairs : pairs[j][1] = a.dims[i]][2] ELSE a.dims[i]]]
RECURSIVE SetWithout(_, _)
SetWithout(a, ds) == IF ds = <<>> THEN [dims |-> a.dims, labels |-> a.labels] ELSE SetWithout(Without(a, Head(ds)), Tail(ds))
Stack(a, ds, new) ==
  IF ~(RangeOf(ds) \subseteq DimSet(a)) THEN Bad
  ELSE LET w == SetWithout(a, ds)
           S == [dims |-> ds, labels |-> [i \in DOMAIN ds |-> LabelsOf(a, ds[i])], data |-> <<>>]
       IN Mk(Append(w.dims, new), Append(w.labels, [k \in 1..Size(S) |-> k]),
             LAMBDA o : LET g == AsgAt(S, o[new])
                        IN ValAt(a, [d \in DimSet(a) |-> IF d \in RangeOf(ds) THEN g[d] ELSE o[d]]))

\* ---- one transform t of the array of variable var.  t.thr: <<[var, arr], ..>>
\* with one entry for every variable ("*") or one per variable.
ThrOf(t, var) ==
  IF \E i \in DOMAIN t.thr : t.thr[i].var \in {var, "*"}
  THEN Fractions(t.thr[CHOOSE i \in DOMAIN t.thr : t.thr[i].var \in {var, "*"}].arr) ELSE Bad
Transformed(t, a, var) ==
  IF IsBad(a) THEN Bad
  ELSE CASE t.op = "mean" -> IF t.dim \notin DimSet(a) /\ t.skipmissing THEN a
                             ELSE Reduce(a, t.dim, LAMBDA s : EnsMean(s, t.skipna))
         [] t.op = "weibull" -> Reduce(a, t.dim, LAMBDA s : Weibull(s, t.skipna))
         [] t.op = "binary" -> LET x == ThrOf(t, var) IN IF IsBad(x) THEN Bad ELSE Elementwise(a, x, FALSE, AboveThr)
         [] t.op = "cdf" -> LET x == ThrOf(t, var) IN IF IsBad(x) THEN Bad ELSE Cdf(a, x, t.dim, t.closed, t.enforce)
         [] t.op = "bins" -> LET x == ThrOf(t, var) IN IF IsBad(x) THEN Bad ELSE BinsOf(a, x, t.dim, t.enforce)
         [] t.op = "shift" -> LET x == ThrOf(t, var) IN IF IsBad(x) THEN Bad ELSE Elementwise(a, x, FALSE, RAdd)
         [] t.op = "relu" -> MapV(a, LAMBDA v : IF v = Miss \/ v[1] > 0 THEN v ELSE <<0, 1>>)
         [] t.op = "negate" -> MapV(a, RNeg)
         [] t.op = "twiceplus1" -> MapV(a, LAMBDA v : RAdd(RAdd(v, v), IF v = Miss THEN Miss ELSE <<1, 1>>))
         [] t.op = "rename" -> RenameDims(a, t.pairs)
         [] t.op = "select" -> SelAll(SelAll(a, t.sel), t.isel)
         [] t.op = "stack" -> Stack(a, t.dims, t.new)
Reaches(t, side) == t.which = "both" \/ t.which = side
RECURSIVE Chained(_, _, _, _)
Chained(ts, side, a, var) ==
  IF ts = <<>> THEN a
  ELSE Chained(Tail(ts), side, IF Reaches(Head(ts), side) THEN Transformed(Head(ts), a, var) ELSE a, var)

\* Dimensions without labels of their own (made by stacking); their elements are
\* numbered by position.
RECURSIVE PlainDims(_, _, _)
PlainDims(ts, side, ds) ==
  IF ts = <<>> THEN ds
  ELSE LET t == Head(ts)
       IN PlainDims(Tail(ts), side,
            IF ~Reaches(t, side) THEN ds
            ELSE CASE t.op = "stack" -> (ds \ RangeOf(t.dims)) \cup {t.new}
                   [] t.op = "rename" -> {IF \E j \in DOMAIN t.pairs : t.pairs[j][1] = d
                                          THEN t.pairs[CHOOSE j \in DOMAIN t.pairs : t.pairs[j][1] = d][2] ELSE d : d \in ds}
                   [] OTHER -> ds)
Renumbered(a, ds) ==
  IF IsBad(a) THEN a
  ELSE [a EXCEPT !.labels = [i \in DOMAIN a.dims |->
          IF a.dims[i] \in ds THEN [k \in DOMAIN a.labels[i] |-> k] ELSE a.labels[i]]]

\* ---- a mask (one truth value per element, possibly on fewer dimensions)
\* follows its elements; it is undefined once its elements were averaged.
NoMask == Bad
MaskAfter(t, m, a) ==
  IF IsBad(m) THEN Bad
  ELSE CASE t.op \in {"mean", "weibull"} -> IF t.dim \in DimSet(m) THEN Bad ELSE m
         [] t.op = "rename" -> RenameDims(m, SelectSeq(t.pairs, LAMBDA p : p[1] \in DimSet(m)))
         [] t.op = "select" -> LET f(ss) == SelectSeq(ss, LAMBDA s : s.dim \in DimSet(m)) IN SelAll(SelAll(m, f(t.sel)), f(t.isel))
         [] t.op = "stack" ->
              IF RangeOf(t.dims) \cap DimSet(m) = {} THEN m
              ELSE LET add == SelectSeq(t.dims, LAMBDA d : d \notin DimSet(m))
                       ds == m.dims \o add
                       full == Mk(ds, [i \in DOMAIN ds |-> IF i <= Len(m.dims) THEN m.labels[i] ELSE LabelsOf(a, ds[i])], LAMBDA o : At(m, o))
                   IN Stack(full, t.dims, t.new)
         [] OTHER -> m
RECURSIVE MaskChained(_, _, _, _, _)
MaskChained(ts, side, m, a, var) ==
  IF ts = <<>> THEN m
  ELSE IF Reaches(Head(ts), side)
       THEN MaskChained(Tail(ts), side, MaskAfter(Head(ts), m, a), Transformed(Head(ts), a, var), var)
       ELSE MaskChained(Tail(ts), side, m, a, var)
=============================================================================
