---- MODULE TraceLoader ----
(* Judges recorded load_chunk calls of the gridded loaders.                   *)
EXTENDS Loader, LArr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Exact(e) == e.leadmode = "exact"
ValidOf(e, g) == IF Exact(e) THEN Valid(g["init_time"], g["lead_time"])
                 ELSE IF e.loader = "targ" THEN g["valid_time"] ELSE g["init_time"]
TimeDims(e) == CASE e.loader = "pred" -> {"init_time", "lead_time"}
                 [] e.loader \in {"targ", "pers", "prob"} -> {"valid_time"}
                 [] e.loader = "clim" -> RangeOf(e.units)
\* Label of source dimension d needed for output position g.
NeedOf(e, g, d) ==
  CASE d = "init_time" -> g["init_time"]
    [] d = "lead_time" -> g["lead_time"]
    [] e.loader = "targ" -> ValidOf(e, g)
    [] e.loader = "pers" -> PersistenceTime(g["init_time"], g["lead_time"])
    [] e.loader = "prob" -> YearTime(e.startyear + g["number"], ValidOf(e, g))
    [] e.loader = "clim" -> ClimKey(d, ValidOf(e, g))
SelOf(e, d) == {i \in DOMAIN e.sel : e.sel[i].dim = d}
Dropped(e) == {e.sel[i].dim : i \in {j \in DOMAIN e.sel : e.sel[j].scalar}}
\* A variable without any time dimension is not addressed by time.
Static(e, s) == DimSet(s) \cap TimeDims(e) = {}
OutDims(e, s) ==
  IF Static(e, s) THEN DimSet(s) \ Dropped(e)
  ELSE ((DimSet(s) \ TimeDims(e)) \ Dropped(e)) \cup
     (CASE e.loader = "pred" -> {"init_time", "lead_time"}
        [] e.loader = "targ" -> IF Exact(e) THEN {"init_time", "lead_time"} ELSE {"valid_time"}
        [] e.loader = "clim" -> IF Exact(e) THEN {"init_time", "lead_time"} ELSE {"init_time"}
        [] e.loader = "pers" -> {"init_time", "lead_time"}
        [] e.loader = "prob" -> {"init_time", "lead_time", "number"})
OutLabels(e, s, d) ==
  IF d \in {"init_time", "valid_time"} THEN e.inits
  ELSE IF d = "lead_time" THEN
     (IF Exact(e) THEN e.leads
      ELSE SelectSeq(LabelsOf(s, d), LAMBDA x : e.leadmode = "none" \/ (x >= e.leads[1] /\ x <= e.leads[2])))
  ELSE IF d = "number" /\ e.loader = "prob" THEN [k \in 1..(e.endyear - e.startyear + 1) |-> k - 1]
  ELSE IF SelOf(e, d) # {} THEN (LET i == CHOOSE i \in SelOf(e, d) : TRUE IN e.sel[i].labels)
  ELSE LabelsOf(s, d)
SrcAsg(e, s, g) ==
  [d \in DimSet(s) |->
     IF d \in TimeDims(e) /\ ~Static(e, s) THEN NeedOf(e, g, d)
     ELSE IF d \in Dropped(e) THEN (LET i == CHOOSE i \in SelOf(e, d) : TRUE IN e.sel[i].labels[1])
     ELSE g[d]]
\* Preprocessing of the source, then chunk processing, then interpolation.
Final(e, v) ==
  LET v1 == IF e.pre.on THEN Process(e.pre, v) ELSE v
      v2 == IF e.proc.on THEN Process(e.proc, v1) ELSE v1
  IN IF e.interp.on THEN Interp(e.interp, v2) ELSE v2

OutAsgs(e, s) == FrameAsgs(OutDims(e, s), [d \in OutDims(e, s) |-> RangeOf(OutLabels(e, s, d))])
Answerable(e) ==
  /\ ~(e.leadmode = "slice" /\ e.loader # "pred")
  /\ ~(e.leadmode = "none" /\ e.loader \in {"pers", "prob"})
  /\ \A i \in DOMAIN e.src : LET s == e.src[i].arr IN
        Static(e, s) \/ \A g \in OutAsgs(e, s) : HasAt(s, SrcAsg(e, s, g))
Wanted(e) == IF e.allvars THEN {e.src[i].name : i \in DOMAIN e.src} ELSE RangeOf(e.vars)
SrcNamed(e, n) == e.src[CHOOSE i \in DOMAIN e.src : e.src[i].name = n]

JudgeVar(e, o) ==
  LET s == SrcNamed(e, o.name).arr a == o.arr
      val(g) == Final(e, ValAt(s, SrcAsg(e, s, g)))
      holds(b, f(_)) == WellFormed(b) /\ DimSet(b) \subseteq DimSet(a) /\ \A k \in 1..Size(a) : LET g == AsgAt(a, k) IN HasAt(b, g) /\ ValAt(b, g) = f(g)
  IN IF ~WellFormed(a) THEN {"malformed"}
     ELSE IF DimSet(a) # OutDims(e, s) THEN {"wrong-dimensions"}
     ELSE IF \E d \in DimSet(a) : LabelsOf(a, d) # OutLabels(e, s, d) THEN {"not-the-requested-times-or-points"}
     ELSE Fail("wrong-value", \A k \in 1..Size(a) : a.data[k] = val(AsgAt(a, k)))
       \cup Fail("dtype-changed", o.dtype = SrcNamed(e, o.name).dtype)
       \cup (IF e.nanmask THEN (IF o.hasmask THEN Fail("wrong-missing-data-mask", holds(o.mask, LAMBDA g : IF val(g) = NaN THEN 0 ELSE 1)) ELSE {"mask-missing"})
             ELSE Fail("mask-uninvited", ~o.hasmask))
       \cup (IF e.valcoord THEN (IF o.hasvals THEN Fail("wrong-value-coordinate", holds(o.vals, val)) ELSE {"value-coordinate-missing"}) ELSE {})
JudgeLoad(e) ==
  IF ~Answerable(e) THEN Fail("answered-with-other-times", ~e.ok)
  ELSE IF ~e.ok THEN {"load-raised"}
  ELSE LET got == {e.out[i].name : i \in DOMAIN e.out}
       IN Fail("wrong-variables", got = Wanted(e))
          \cup UNION {JudgeVar(e, e.out[i]) : i \in {j \in DOMAIN e.out : e.out[j].name \in Wanted(e)}}
          \cup Fail("source-changed", e.unchanged)
Judge(e) == JudgeLoad(e)

TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
====
