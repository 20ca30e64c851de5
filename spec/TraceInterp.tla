---- MODULE TraceInterp ----
EXTENDS Interp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* ---- one step of an interpolation
\* Target positions that apply (clipping drops those outside the source).
TgtPos(a, st, d) ==
  LET p == st.tgt[d].pos
  IN IF d \in RangeOf(st.clip)
     THEN SelectSeq(p, LAMBDA x : x >= Min(LabelSet(a, d)) /\ x <= Max(LabelSet(a, d)))
     ELSE p
OutDim(st, d) == st.tgt[d].dim
Others(a, st) == DimSet(a) \ RangeOf(st.ds)
OutDims(a, st) == Others(a, st) \cup {OutDim(st, d) : d \in RangeOf(st.ds)}
\* Labels of an output dimension: its own positions, or a numbering of points.
OutLabels(a, st, od) ==
  IF od \in Others(a, st) THEN LabelSet(a, od)
  ELSE IF od \in RangeOf(st.ds) /\ OutDim(st, od) = od THEN RangeOf(TgtPos(a, st, od))
  ELSE LET d == CHOOSE d \in RangeOf(st.ds) : OutDim(st, d) = od IN DOMAIN TgtPos(a, st, d)
\* Target position along d of an output element.
PosAt(st, d, g) == IF OutDim(st, d) = d THEN g[d] ELSE st.tgt[d].pos[g[OutDim(st, d)]]
SrcAsg(a, st, g) == [d \in DimSet(a) |-> IF d \in RangeOf(st.ds) THEN 0 ELSE g[d]]
Sets(a, st, g) == [d \in RangeOf(st.ds) |->
    \* An axis of a single point can only be interpolated linearly to just that point.
    IF /\ Cardinality(LabelSet(a, d)) = 1 /\ st.method = "linear" /\ ~(st.wrap /\ d = "lon")
       /\ OutDim(st, d) = d /\ TgtPos(a, st, d) # LabelsOf(a, d)
    THEN {Free}
    ELSE LookupSet(LabelSet(a, d), PosAt(st, d, g), st.method, st.wrap /\ d = "lon", st.extrap)]

\* Sub-arrays: labels kept along some dimensions.
Pick(a, keep(_, _)) ==
  LET labs == [i \in DOMAIN a.dims |-> SelectSeq(a.labels[i], LAMBDA x : keep(a.dims[i], x))]
      t == [dims |-> a.dims, labels |-> labs, data |-> <<>>]
  IN [t EXCEPT !.data = [k \in 1..Size(t) |-> ValAt(a, AsgAt(t, k))]]
Strided(a, st, d, x) == \E k \in 0..Len(LabelsOf(a, d)) :
    1 + k * st.stride \in DOMAIN LabelsOf(a, d) /\ LabelsOf(a, d)[1 + k * st.stride] = x
InCrop(st, d, x, strict) ==
  CASE d = "lat" -> x >= st.s /\ x <= st.n
    [] d = "lon" -> IF strict THEN x > st.w /\ x < st.e ELSE x >= st.w /\ x <= st.e
    [] OTHER -> TRUE
\* Steps without rounding or freedom, applied as array transformations (used
\* for all but the last step of a sequence).
NearestArr(a, st) ==
  LET dims == SetToSeq(OutDims(a, st))
      labs == [i \in DOMAIN dims |->
                 IF dims[i] \in Others(a, st) THEN LabelsOf(a, dims[i])
                 ELSE IF dims[i] \in RangeOf(st.ds) THEN TgtPos(a, st, dims[i])
                 ELSE SetToSeq(OutLabels(a, st, dims[i]))]
      t == [dims |-> dims, labels |-> labs, data |-> <<>>]
      val(g) == LET L == CHOOSE f \in AllLookups(st.ds, Sets(a, st, g)) : TRUE
                IN IF \E i \in DOMAIN st.ds : L[st.ds[i]].st = "missing" THEN NaN
                   ELSE Num(a, [d \in DimSet(a) |-> IF d \in RangeOf(st.ds) THEN 0 ELSE g[d]], st.ds, L)
  IN [t EXCEPT !.data = [k \in 1..Size(t) |-> val(AsgAt(t, k))]]
Exact(a, st) ==
  CASE st.kind = "sub" -> Pick(a, LAMBDA d, x : d \in RangeOf(st.dims) => Strided(a, st, d, x))
    [] st.kind = "crop" -> LET b == Pick(a, LAMBDA d, x : InCrop(st, d, x, FALSE)) IN
          \* cropping also orders latitudes and longitudes increasingly
          LET t == [b EXCEPT !.labels = [i \in DOMAIN b.dims |->
                      IF b.dims[i] \in {"lat", "lon"} THEN SortSeq(b.labels[i], <) ELSE b.labels[i]]]
          IN [t EXCEPT !.data = [k \in 1..Size(t) |-> ValAt(a, AsgAt(t, k))]]
    [] OTHER -> NearestArr(a, st)
RECURSIVE Prior(_, _)
Prior(a, steps) == IF Len(steps) = 1 THEN a ELSE Prior(Exact(a, Head(steps)), Tail(steps))

\* ---- judging the last step
JudgeInterp(e, a, st) ==
  LET r == e.res
      ods == OutDims(a, st)
  IN IF ~WellFormed(r) THEN {"result-malformed"}
     ELSE IF DimSet(r) # ods THEN {"result-not-on-target-dimensions"}
     ELSE IF \E d \in ods : LabelSet(r, d) # OutLabels(a, st, d) THEN {"result-not-on-target-points"}
     ELSE Fail("wrong-interpolated-value",
            \A k \in 1..Size(r) :
              LET g == AsgAt(r, k)
              IN \E L \in AllLookups(st.ds, Sets(a, st, g)) :
                   AgreesAt(r.data[k], a, SrcAsg(a, st, g), st.ds, L, e.scale, 2))
          \cup Fail("target-order-changed", \A d \in RangeOf(st.ds) :
                 OutDim(st, d) = d => LabelsOf(r, d) = TgtPos(a, st, d))
          \cup Fail("target-coordinates-lost", \A d \in RangeOf(st.ds) :
                 d \in DOMAIN e.coords /\ e.coords[d] = TgtPos(a, st, d))
JudgeSub(e, a, st) ==
  LET x == Exact(a, st)  r == e.res
  IN IF ~WellFormed(r) THEN {"result-malformed"}
     ELSE IF DimSet(r) # DimSet(x) THEN {"dimensions-changed"}
     ELSE IF \E d \in DimSet(x) : LabelSet(r, d) # LabelSet(x, d) THEN {"wrong-points-kept"}
     ELSE Fail("value-changed", \A k \in 1..Size(r) : r.data[k] = (LET v == ValAt(x, AsgAt(r, k)) IN IF IsNum(v) THEN v * e.scale ELSE v))
JudgeCrop(e, a, st) ==
  LET r == e.res
  IN IF ~WellFormed(r) THEN {"result-malformed"}
     ELSE IF DimSet(r) # DimSet(a) THEN {"dimensions-changed"}
     ELSE Fail("points-inside-box-lost", \A d \in DimSet(a) : {x \in LabelSet(a, d) : InCrop(st, d, x, TRUE)} \subseteq LabelSet(r, d))
          \cup (IF \E d \in DimSet(a) : ~({x \in LabelSet(r, d) : TRUE} \subseteq {x \in LabelSet(a, d) : InCrop(st, d, x, FALSE)})
                THEN {"points-outside-box-kept"}
                ELSE Fail("value-changed", \A k \in 1..Size(r) : r.data[k] = (LET v == ValAt(a, AsgAt(r, k)) IN IF IsNum(v) THEN v * e.scale ELSE v)))
Rejects(st) == \/ st.kind = "sub" /\ st.stride < 1
               \/ st.kind = "crop" /\ (st.s > st.n \/ st.w > st.e)
JudgeSteps(e) ==
  IF \E i \in DOMAIN e.steps : Rejects(e.steps[i]) THEN Fail("invalid-arguments-accepted", ~e.ok)
  ELSE IF ~e.ok THEN {"interpolation-raised"}
  ELSE LET a == Prior(e.src, e.steps)
           st == e.steps[Len(e.steps)]
       IN CASE st.kind = "sub" -> JudgeSub(e, a, st)
            [] st.kind = "crop" -> JudgeCrop(e, a, st)
            [] OTHER -> JudgeInterp(e, a, st)

\* ---- altitude adjustment (heights in units of 100 m, temperature lapse
\* 0.65 per unit, wind factor 1 + (dz - 1) / 5 between 1 and 11 units)
JudgeAltitude(e) ==
  IF ~e.ok THEN {"interpolation-raised"}
  ELSE LET st == e.steps[1]  a == e.src  z == e.elevation  r == e.res
       IN IF ~WellFormed(r) THEN {"result-malformed"}
          ELSE IF DimSet(r) # OutDims(a, st) THEN {"result-not-on-target-dimensions"}
          ELSE IF \E d \in DimSet(r) : LabelSet(r, d) # OutLabels(a, st, d) THEN {"result-not-on-target-points"}
          ELSE UNION {LET g == AsgAt(r, k)
                          L == CHOOSE f \in AllLookups(st.ds, Sets(a, st, g)) : TRUE
                          D == Den(st.ds, L)
                          v == Num(a, SrcAsg(a, st, g), st.ds, L)
                          zg == Num(z, [d \in DimSet(z) |-> 0], st.ds, L)
                          raw == e.station[g["pt"]] * D - zg       \* height difference times D
                          big == e.maxdiff * D
                          dz == IF Abs(raw) < big THEN raw ELSE 0
                          adj == CASE e.var = "2m_temperature" -> [n |-> 20 * v - 13 * dz, d |-> 20 * D]
                                   [] e.var = "10m_wind_speed" ->
                                        (CASE dz < D -> [n |-> v, d |-> D]
                                           [] dz >= 11 * D -> [n |-> 3 * v, d |-> D]
                                           [] OTHER -> [n |-> v * (4 * D + dz), d |-> 5 * D * D])
                                   [] OTHER -> [n |-> v, d |-> D]
                          skip == L[st.ds[1]].st # "ok" \/ L[st.ds[2]].st # "ok" \/ Abs(raw) = big
                      IN Fail("wrong-adjusted-value", skip \/ Agrees(r.data[k], adj.n, adj.d, e.scale, 2))
                      : k \in 1..Size(r)}
Judge(e) ==
  (CASE e.op = "interp" -> JudgeSteps(e)
    [] e.op = "altitude" -> JudgeAltitude(e))
  \cup (IF "unchanged" \in DOMAIN e THEN Fail("source-changed", e.unchanged) ELSE {})
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
====
