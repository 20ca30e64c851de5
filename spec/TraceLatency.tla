---- MODULE TraceLatency ----
(* Judges recorded load_chunk calls of the latency wrappers.                  *)
EXTENDS Latency, Loader, LArr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Srcs(e) == [k \in DOMAIN e.sources |-> [noms |-> RangeOf(e.sources[k].noms), latency |-> e.sources[k].latency]]
SrcVar(e, k, n) == LET vs == e.sources[k].vars IN vs[CHOOSE i \in DOMAIN vs : vs[i].name = n].arr
Final(e, v) == IF e.proc.on THEN Process(e.proc, v) ELSE v
Shifted(e, k, q, x) == x + (q - Newest(Srcs(e)[k], q))

\* ---- gridded sources
OutAsgsOf(e, s) ==
  FrameAsgs(DimSet(s), [d \in DimSet(s) |-> IF d = "init_time" THEN RangeOf(e.inits) ELSE IF d = "lead_time" THEN RangeOf(e.leads) ELSE LabelSet(s, d)])
CanServe(e, k, q) ==
  \A i \in DOMAIN e.sources[k].vars : LET s == e.sources[k].vars[i].arr IN
     /\ Newest(Srcs(e)[k], q) \in LabelSet(s, "init_time")
     /\ \A x \in RangeOf(e.leads) : Shifted(e, k, q, x) \in LabelSet(s, "lead_time")
Answerable(e) == \A q \in RangeOf(e.inits) : Serving(Srcs(e), q) # {} /\ \A k \in Serving(Srcs(e), q) : CanServe(e, k, q)
SourceValue(e, k, n, g) ==
  LET s == SrcVar(e, k, n) q == g["init_time"]
  IN Final(e, ValAt(s, [d \in DimSet(s) |-> IF d = "init_time" THEN Newest(Srcs(e)[k], q)
                          ELSE IF d = "lead_time" THEN Shifted(e, k, q, g["lead_time"]) ELSE g[d]]))
JudgeVar(e, o) ==
  LET a == o.arr
      s == SrcVar(e, 1, o.name)
      holds(b, f(_, _)) == WellFormed(b) /\ DimSet(b) \subseteq DimSet(a) /\
         \A q \in RangeOf(e.inits) : \E k \in Serving(Srcs(e), q) :
           \A i \in 1..Size(a) : LET g == AsgAt(a, i) IN g["init_time"] = q => HasAt(b, g) /\ ValAt(b, g) = f(k, g)
      val(k, g) == SourceValue(e, k, o.name, g)
  IN IF ~WellFormed(a) THEN {"malformed"}
     ELSE IF DimSet(a) # DimSet(s) THEN {"wrong-dimensions"}
     ELSE IF LabelsOf(a, "init_time") # e.inits \/ LabelsOf(a, "lead_time") # e.leads \/
             \E d \in DimSet(a) \ {"init_time", "lead_time"} : LabelSet(a, d) # LabelSet(s, d)
          THEN {"not-labelled-with-the-request"}
     ELSE Fail("not-the-newest-issued-forecast", holds(a, val))
       \cup (IF e.nanmask THEN (IF o.hasmask THEN Fail("wrong-missing-data-mask", holds(o.mask, LAMBDA k, g : IF val(k, g) = NaN THEN 0 ELSE 1)) ELSE {"mask-missing"}) ELSE {})
       \cup (IF e.valcoord THEN (IF o.hasvals THEN Fail("wrong-value-coordinate", holds(o.vals, val)) ELSE {"value-coordinate-missing"}) ELSE {})
JudgeGrid(e) ==
  IF ~Answerable(e) THEN Fail("answered-with-other-data", ~e.ok)
  ELSE IF ~e.ok THEN {"load-raised"}
  ELSE LET got == {e.out[i].name : i \in DOMAIN e.out}
           want == {e.sources[1].vars[i].name : i \in DOMAIN e.sources[1].vars}
       IN Fail("wrong-variables", got = want)
          \cup UNION {JudgeVar(e, e.out[i]) : i \in {j \in DOMAIN e.out : e.out[j].name \in want}}

\* ---- point sources: rows <<init, lead, station, value>>
RowsFor(e, k, q) ==
  LET n == Newest(Srcs(e)[k], q)
  IN {<<q, r[2] - (q - n), r[3], r[4]>> : r \in {x \in RangeOf(e.sources[k].rows) : x[1] = n /\ x[2] - (q - n) \in RangeOf(e.leads)}}
JudgeRows(e) ==
  IF \E q \in RangeOf(e.inits) : Serving(Srcs(e), q) = {} THEN Fail("answered-with-other-data", ~e.ok)
  ELSE IF ~e.ok THEN {"load-raised"}
  ELSE LET rs == RangeOf(e.outrows)
       IN Fail("row-duplicated", Cardinality(rs) = Len(e.outrows))
          \cup Fail("not-the-newest-issued-forecast",
               /\ \A r \in rs : r[1] \in RangeOf(e.inits)
               /\ \A q \in RangeOf(e.inits) : \E k \in Serving(Srcs(e), q) : {r \in rs : r[1] = q} = RowsFor(e, k, q))

\* ---- which nominal time is used for a request
JudgeAvail(e) ==
  LET s == Srcs(e)[1]
  IN IF IssuedBy(s, e.q) = {} THEN Fail("future-forecast-available", ~e.ok)
     ELSE IF ~e.ok THEN {"query-raised"}
     ELSE Fail("not-the-newest-issued-time", e.nominal = Newest(s, e.q))
Judge(e) == CASE e.op = "grid" -> JudgeGrid(e) [] e.op = "rows" -> JudgeRows(e) [] e.op = "avail" -> JudgeAvail(e)

TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
====
