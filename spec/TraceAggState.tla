---- MODULE TraceAggState ----
(* Judges recorded histories of aggregation-state operations.  Every event    *)
(* logs the whole register file after the call, so changed operands show.      *)
EXTENDS AggState, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, regs   \* regs: logged register file after the previous event

Keys(s) == {s.v[i].key : i \in DOMAIN s.v}
Of(s, key) == s.v[CHOOSE i \in DOMAIN s.v : s.v[i].key = key]
SameState(a, b) ==
  /\ a.z = b.z
  /\ Keys(a) = Keys(b) /\ Len(a.v) = Len(b.v)
  /\ \A k \in Keys(a) : SameArr(Of(a, k).s, Of(b, k).s) /\ SameArr(Of(a, k).w, Of(b, k).w)

\* r is the zero-filled outer-join sum of the arrays in sequence as.
IsArrSum(r, as) ==
  LET ds == DimSet(as[1])
      lab == [d \in ds |-> UNION {LabelSet(as[i], d) : i \in DOMAIN as}]
      val(g) == NSum(DOMAIN as, LAMBDA i : IF HasAt(as[i], g) THEN ValAt(as[i], g) ELSE 0)
  IN HoldsFn(r, ds, lab, val)

IsSumOf(r, args) ==
  LET nz == SelectSeq(args, LAMBDA s : ~s.z)
  IN IF nz = <<>> THEN (IF r.z THEN {} ELSE {"sum-of-empty-not-empty"})
     ELSE IF r.z THEN {"sum-lost-everything"}
     ELSE IF Keys(r) # Keys(nz[1]) THEN {"sum-changes-names"}
     ELSE UNION {
       Fail("sum-of-weighted-statistics", IsArrSum(Of(r, k).s, [i \in DOMAIN nz |-> Of(nz[i], k).s]))
       \cup Fail("sum-of-weights", IsArrSum(Of(r, k).w, [i \in DOMAIN nz |-> Of(nz[i], k).w]))
       : k \in Keys(r)}

\* r is a summed over dimensions dims (NaN propagating).
IsArrSumDims(r, a, dims) ==
  LET ds == DimSet(a) \ dims
      lab == [d \in ds |-> LabelSet(a, d)]
      val(g) == NSum({k \in 1..Size(a) : Restrict(AsgAt(a, k), ds) = g}, LAMBDA k : a.data[k])
  IN HoldsFn(r, ds, lab, val)

IsSumDims(r, a, dims) ==
  IF a.z THEN Fail("sum-dims-of-empty", r.z)
  ELSE IF r.z \/ Keys(r) # Keys(a) THEN {"sum-dims-changes-names"}
  ELSE UNION {Fail("sum-dims-weighted-statistics", IsArrSumDims(Of(r, k).s, Of(a, k).s, dims))
              \cup Fail("sum-dims-weights", IsArrSumDims(Of(r, k).w, Of(a, k).w, dims)) : k \in Keys(a)}

IsMean(m, a) ==
  IF {m[i].key : i \in DOMAIN m} # Keys(a) THEN {"mean-changes-names"}
  ELSE UNION {LET x == m[i].s
                  s == Of(a, m[i].key).s
                  w == Of(a, m[i].key).w
              IN Fail("mean",
                   /\ WellFormed(x) /\ SameFrame(x, s)
                   /\ \A k \in 1..Size(x) :
                        LET g == AsgAt(x, k)
                        IN IF ValAt(w, g) = 0 /\ IsNum(ValAt(s, g)) /\ ValAt(s, g) # 0
                           THEN x.data[k] \in {PInf, NInf}
                           ELSE IF ~IsNum(ValAt(w, g)) THEN x.data[k] = NaN
                           ELSE Agrees(x.data[k], ValAt(s, g), ValAt(w, g), 256, 1))
              : i \in DOMAIN m}

Unchanged(e, pre, except) ==
  Fail("operand-or-other-state-changed",
       /\ \A r \in (DOMAIN pre) \ except : r \in DOMAIN e.heap /\ SameState(e.heap[r], pre[r]))

\* direct aggregation of one statistic array a over dims R (weights all one)
IsAggOf(r, a, R) ==
  LET ones == [a EXCEPT !.data = [k \in 1..Size(a) |-> 1]]
  IN IF r.z \/ Len(r.v) # 1 THEN {"aggregate-missing"}
     ELSE Fail("aggregate-weighted-statistics", IsArrSumDims(r.v[1].s, a, R))
          \cup Fail("aggregate-weights", IsArrSumDims(r.v[1].w, ones, R))

Judge(e, pre) ==
  IF ~e.ok THEN {"operation-raised"}
  ELSE CASE e.op = "load" -> Unchanged(e, pre, {e.dst})
    [] e.op = "zero" -> Fail("empty-state-not-empty", e.heap[e.dst].z) \cup Unchanged(e, pre, {e.dst})
    [] e.op = "add" -> IsSumOf(e.heap[e.dst], <<pre[e.a], pre[e.b]>>) \cup Unchanged(e, pre, {e.dst})
    [] e.op = "sum" -> IsSumOf(e.heap[e.dst], [i \in DOMAIN e.args |-> pre[e.args[i]]]) \cup Unchanged(e, pre, {e.dst})
    [] e.op = "sumdims" -> IsSumDims(e.heap[e.dst], pre[e.a], RangeOf(e.dims)) \cup Unchanged(e, pre, {e.dst})
    [] e.op = "mean" -> IsMean(e.mean, pre[e.a]) \cup Unchanged(e, pre, {})
    [] e.op = "agg" -> IsAggOf(e.heap[e.dst], e.stat, RangeOf(e.dims)) \cup Unchanged(e, pre, {e.dst})

TInit == l = 1 /\ regs = <<>> /\ h0 = 0 /\ h = 0 /\ live = {} /\ hist = <<>>
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET e == Trace[l]
                pre == IF e.first THEN <<>> ELSE regs
                b == Judge(e, pre)
            IN /\ IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
               /\ regs' = IF e.ok THEN e.heap ELSE pre
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, regs, vars>>
====
