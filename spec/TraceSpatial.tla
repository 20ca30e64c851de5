---- MODULE TraceSpatial ----
(* Judges recorded bin masks.  Angles and coordinate values are quarter units *)
(* (a full circle is 1440).                                                   *)
EXTENDS Spatial, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Need(e) == IF e.form = "grid" THEN e.need ELSE <<"index">>
Lat(e, g) == IF e.form = "grid" THEN g["latitude"] ELSE e.lat[g["index"]]
Lon(e, g) == IF e.form = "grid" THEN g["longitude"] ELSE e.lon[g["index"]]
Val(e, g) == IF e.form = "grid" THEN g["x"] ELSE e.val[g["index"]]

\* The mask has one entry per bin and point, with the right bins and value.
JudgeMask(e, bins, member(_, _)) ==
  LET r == e.res IN
  IF ~WellFormed(r) THEN {"mask-malformed"}
  ELSE Fail("bin-dimension-missing", "BIN" \in DimSet(r))
       \cup Fail("mask-not-on-the-points", \A i \in DOMAIN Need(e) : Need(e)[i] \in DimSet(r))
       \cup Fail("mask-on-unknown-dimensions", DimSet(r) \subseteq {"BIN"} \cup RangeOf(e.statdims))
       \cup (IF "BIN" \in DimSet(r) /\ \A i \in DOMAIN Need(e) : Need(e)[i] \in DimSet(r)
             THEN Fail("bin-labels", LabelSet(r, "BIN") = bins /\ Cardinality(bins) = Len(LabelsOf(r, "BIN")))
                  \cup Fail("points-lost-or-invented",
                        \A i \in DOMAIN Need(e) : LabelSet(r, Need(e)[i]) = RangeOf(e.labels[Need(e)[i]]))
                  \cup (IF /\ LabelSet(r, "BIN") \subseteq bins
                           /\ \A i \in DOMAIN Need(e) : LabelSet(r, Need(e)[i]) \subseteq RangeOf(e.labels[Need(e)[i]])
                        THEN Fail("wrong-bin-membership",
                              \A k \in 1..Size(r) : LET g == AsgAt(r, k)
                                 IN r.data[k] = IF member(g, g["BIN"]) THEN 1 ELSE 0)
                        ELSE {})
             ELSE {})

\* ---- boxes, optionally restricted to land
RegionNames(e) == {e.regions[i].name : i \in DOMAIN e.regions}
LandNames(e) == {e.regions[i].land : i \in DOMAIN e.regions}
RegionOf(e, b) == LET i == CHOOSE i \in DOMAIN e.regions : b \in {e.regions[i].name, e.regions[i].land} IN e.regions[i]
IsLand(e, g) == IF e.form = "grid" THEN ValAt(e.landmask, [latitude |-> g["latitude"], longitude |-> g["longitude"]]) = 1
                ELSE e.landmask.data[g["index"]] = 1
JudgeRegions(e) ==
  LET rejected == \E i \in DOMAIN e.regions : e.regions[i].s >= e.regions[i].n
      member(g, b) == LET r == RegionOf(e, b)
                      IN InBox(Lat(e, g), Lon(e, g), r) /\ (b # r.name => IsLand(e, g))
  IN IF rejected THEN Fail("empty-latitude-band-accepted", ~e.ok)
     ELSE IF ~e.ok THEN {"binning-raised"}
     ELSE JudgeMask(e, RegionNames(e) \cup (IF e.land THEN LandNames(e) ELSE {}), member)

JudgeLat(e) ==
  IF ~e.ok THEN {"binning-raised"}
  ELSE JudgeMask(e, Starts(e.lo, e.hi, e.width), LAMBDA g, b : InBand(Lat(e, g), b, b + e.width))
JudgeLon(e) ==
  LET hi == IF e.lo >= e.hi THEN e.hi + Full ELSE e.hi
  IN IF ~e.ok THEN {"binning-raised"}
     ELSE JudgeMask(e, {s % Full : s \in Starts(e.lo, hi, e.width)},
                    LAMBDA g, b : InArc(Lon(e, g), b, b + e.width))
GlobalBin == 777777
JudgeCoord(e) ==
  LET n == Len(e.edges)
      starts == {e.edges[i] : i \in 1..(n - 1)}
      stop(b) == LET i == CHOOSE i \in 1..(n - 1) : e.edges[i] = b IN e.edges[i + 1]
  IN IF ~e.ok THEN {"binning-raised"}
     ELSE JudgeMask(e, starts \cup (IF e.global THEN {GlobalBin} ELSE {}),
                    LAMBDA g, b : b = GlobalBin \/ InHalfOpen(Val(e, g), b, stop(b)))
JudgeLandSea(e) ==
  IF ~e.ok THEN {"binning-raised"}
  ELSE JudgeMask(e, {"land", "sea"} \cup (IF e.global THEN {"global"} ELSE {}),
        LAMBDA g, b : LET f == ValAt(e.fraction, [latitude |-> g["latitude"], longitude |-> g["longitude"]])
                      IN b = "global" \/ (b = "land" /\ f >= e.threshold) \/ (b = "sea" /\ f < e.threshold))
JudgeMismatch(e) == Fail("mismatched-land-mask-accepted", ~e.ok)

\* Same mean through the whole aggregation: sums and weights per bin.
Judge(e) ==
  (CASE e.op = "regions" -> JudgeRegions(e)
    [] e.op = "latbins" -> JudgeLat(e)
    [] e.op = "lonbins" -> JudgeLon(e)
    [] e.op = "coordbins" -> JudgeCoord(e)
    [] e.op = "landsea" -> JudgeLandSea(e)
    [] e.op = "mismatch" -> JudgeMismatch(e))
  \cup (IF "unchanged" \in DOMAIN e THEN Fail("statistic-changed", e.unchanged) ELSE {})

TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
====
