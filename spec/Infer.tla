------------------------------- MODULE Infer -------------------------------
(* Metric values as functions of sums over experimental units.  A part of a   *)
(* metric is a pair of vectors over the units: sums of weighted statistics    *)
(* (n) and sums of weights (d).  Multiplicities c say how often each unit     *)
(* counts: all ones for the data themselves, a resample for a replicate.      *)
EXTENDS LArr

RECURSIVE ISqrtB(_, _, _)
ISqrtB(x, lo, hi) == IF lo = hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN ISqrtB(x, m, hi) ELSE ISqrtB(x, lo, m - 1)
ISqrt(x) == ISqrtB(x, 0, 46000)

Dot(v, c) == IF \E u \in DOMAIN v : ~IsNum(v[u]) THEN NaN
             ELSE FoldFunctionOnSet(LAMBDA a, b : a + b, 0, [u \in DOMAIN v |-> c[u] * v[u]], DOMAIN v)

\* Scale at which values of a kind are compared.
ScaleOf(kind) == IF kind \in {"rmse", "drmse"} THEN 100 ELSE 1000

Quot(n, d, s) == IF ~IsNum(n) \/ ~IsNum(d) \/ d = 0 THEN NaN ELSE (s * n) \div d
Root(n, d) == IF ~IsNum(n) \/ ~IsNum(d) \/ d = 0 THEN NaN ELSE ISqrt((10000 * n) \div d)

\* Value (scaled, rounded down) of a metric whose parts have the given sums.
Value(kind, n, d) ==
  CASE kind = "mean"  -> Quot(n[1], d[1], 1000)
    [] kind = "rmse"  -> Root(n[1], d[1])
    [] kind = "dmean" -> NSub(Quot(n[1], d[1], 1000), Quot(n[2], d[2], 1000))
    [] kind = "drmse" -> NSub(Root(n[1], d[1]), Root(n[2], d[2]))
    [] kind = "ratio" -> IF \E i \in {1, 2} : ~IsNum(n[i]) \/ ~IsNum(d[i]) \/ d[i] = 0 THEN NaN
                         ELSE IF n[2] = 0 THEN BadNum
                         ELSE Quot(n[1] * d[2], d[1] * n[2], 1000)
\* relative difference (a - b) / b
    [] kind = "rel"   -> IF \E i \in {1, 2} : ~IsNum(n[i]) \/ ~IsNum(d[i]) \/ d[i] = 0 THEN NaN
                         ELSE IF n[2] = 0 THEN BadNum
                         ELSE Quot(n[1] * d[2], d[1] * n[2], 1000) - 1000

ValueAt(kind, parts, c) == Value(kind, [i \in DOMAIN parts |-> Dot(parts[i].n, c)], [i \in DOMAIN parts |-> Dot(parts[i].d, c)])
Ones(n) == [u \in 1..n |-> 1]

\* Observed value against the scaled expectation; BadNum marks an open value.
Meets(obs, exp, tol) == IF exp = BadNum THEN TRUE ELSE IF exp = NaN THEN obs = NaN ELSE IsNum(obs) /\ Abs(obs - exp) <= tol

---------------------------------------------------------------------------
\* Reading logged states: e.stats lists [stat, var, ws, w]; e.unit is the unit
\* dimension; e.metrics lists [name, kind, parts (statistic names)].
Extra(a, dropped) == DimSet(a) \ dropped
Vec(a, unit, g) == LET ls == LabelsOf(a, unit) IN [u \in 1..Len(ls) |-> ValAt(a, g @@ (unit :> ls[u]))]
Entry(e, s, v) == LET k == CHOOSE i \in DOMAIN e.stats : e.stats[i].stat = s /\ e.stats[i].var = v IN e.stats[k]
HasEntry(e, s, v) == \E i \in DOMAIN e.stats : e.stats[i].stat = s /\ e.stats[i].var = v
PartAt(e, s, v, g) == [n |-> Vec(Entry(e, s, v).ws, e.unit, g), d |-> Vec(Entry(e, s, v).w, e.unit, g)]
MetricOf(e, name) == e.metrics[CHOOSE i \in DOMAIN e.metrics : e.metrics[i].name = name]
PartsAt(e, m, v, g) == [i \in DOMAIN m.parts |-> PartAt(e, m.parts[i], v, g)]

\* Variables a metric has values for: those all its statistics have.
VarsOf(e, m) == {v \in {e.stats[i].var : i \in DOMAIN e.stats} : \A i \in DOMAIN m.parts : HasEntry(e, m.parts[i], v)}
\* Remaining dimensions and labels of a metric's values.
DimsOf(e, m, v) == UNION {DimSet(Entry(e, m.parts[i], v).ws) : i \in DOMAIN m.parts} \ {e.unit}
LabOf(e, m, v, d) == LET i == CHOOSE j \in DOMAIN m.parts : d \in DimSet(Entry(e, m.parts[j], v).ws)
                     IN RangeOf(LabelsOf(Entry(e, m.parts[i], v).ws, d))
\* Outputs present are exactly those of the metrics.
Wanted(e) == {<<e.metrics[i].name, v>> : i \in DOMAIN e.metrics, v \in {e.stats[j].var : j \in DOMAIN e.stats}}
Keys(e) == {x \in Wanted(e) : x[2] \in VarsOf(e, MetricOf(e, x[1]))}
OutKeys(out) == {<<out[i].metric, out[i].var>> : i \in DOMAIN out}
OutOf(out, x) == out[CHOOSE i \in DOMAIN out : <<out[i].metric, out[i].var>> = x].a
\* An output's frame: the metric's remaining dimensions, plus the given ones.
FrameOK(e, x, a, plus) ==
  LET m == MetricOf(e, x[1])
  IN /\ WellFormed(a) /\ DimSet(a) = DimsOf(e, m, x[2]) \cup plus
     /\ \A d \in DimSet(a) \ plus : LabelSet(a, d) = LabOf(e, m, x[2], d)
AsgsOf(e, x) == LET m == MetricOf(e, x[1]) ds == DimsOf(e, m, x[2]) IN FrameAsgs(ds, [d \in ds |-> LabOf(e, m, x[2], d)])
=============================================================================
