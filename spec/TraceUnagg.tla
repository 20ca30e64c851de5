---- MODULE TraceUnagg ----
(* Judges recorded runs of the pipeline that stores unaggregated statistics:   *)
(* the store holds exactly the requested statistics, each with exactly the     *)
(* requested times in their order, each value computed from the data of its    *)
(* own initialisation and lead time.                                           *)
EXTENDS LArr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* Requested lead times: as listed, or those of the source within the interval.
ReqLeads(e) == IF e.interval = <<>> THEN e.leads
               ELSE SelectSeq(e.srcleads, LAMBDA x : e.interval[1] <= x /\ x <= e.interval[2])

\* Forecast and target values at assignment g (times in hours).
PAt(v, g) == ValAt(v.p, g)
TAt(v, g) == IF "time" \in DimSet(v.t)
             THEN LET h == [d \in DimSet(v.t) |-> IF d = "time" THEN g["init_time"] + g["lead_time"] ELSE g[d]] IN ValAt(v.t, h)
             ELSE ValAt(v.t, g)
CAt(e, g) == ValAt(e.clim[1], [d \in {"time"} |-> g["init_time"] + g["lead_time"]])

Elem(e, kind, v, g) ==
  LET p == PAt(v, g) t == TAt(v, g)
  IN CASE kind = "pred" -> p
       [] kind = "anom" -> (LET c == CAt(e, g) IN IF IsNum(p) /\ IsNum(c) THEN p - c ELSE NaN)
       [] OTHER -> IF ~IsNum(p) \/ ~IsNum(t) THEN NaN
                   ELSE CASE kind \in {"err", "sumx", "suml", "sumi"} -> p - t [] kind = "abs" -> Abs(p - t) [] kind = "sq" -> (p - t) * (p - t)
Summed(kind) == CASE kind = "sumx" -> {"x"} [] kind = "suml" -> {"lead_time"} [] kind = "sumi" -> {"init_time"} [] OTHER -> {}

LabSeq(e, v, d) == CASE d = "init_time" -> e.inits [] d = "lead_time" -> ReqLeads(e) [] OTHER -> LabelsOf(v.p, d)

JudgeVar(e, s, v, a) ==
  LET full == DimSet(v.p)
      ds == full \ Summed(s.kind)
      over == full \cap Summed(s.kind)
      val(g) == IF over = {} THEN Elem(e, s.kind, v, g)
                ELSE NSum({h \in FrameAsgs(over, [d \in over |-> RangeOf(LabSeq(e, v, d))]) : TRUE},
                          LAMBDA h : Elem(e, s.kind, v, [d \in full |-> IF d \in over THEN h[d] ELSE g[d]]))
  IN IF ~WellFormed(a) \/ DimSet(a) # ds THEN {"stored-dimensions"}
     ELSE IF \E d \in ds : LabelsOf(a, d) # LabSeq(e, v, d) THEN {"stored-times-or-labels"}
     ELSE Fail("stored-values", \A k \in 1..Size(a) : a.data[k] = val(AsgAt(a, k)))

\* Storage chunks: as asked (-1 for the whole axis), otherwise those of the time
\* chunks along the time axes and whole axes elsewhere.
ChunkOf(e, d, n) ==
  LET z == SelectSeq(e.zarr, LAMBDA x : x.dim = d)
      own == CASE d = "init_time" -> e.chunks[1] [] d = "lead_time" -> e.chunks[2] [] OTHER -> 0
      k == IF z # <<>> THEN z[1].n ELSE own
  IN IF k <= 0 \/ k > n THEN n ELSE k
JudgeLayout(e) == Fail("storage-chunks",
  \A i \in DOMAIN e.out : LET o == e.out[i] IN
    Len(o.chunks) = Len(o.a.dims) /\ \A k \in DOMAIN o.chunks : o.chunks[k] = ChunkOf(e, o.a.dims[k], Len(o.a.labels[k])))

Named(e, s, v) == SelectSeq(e.out, LAMBDA x : x.name = s.name \o "." \o v.key)
Coord(e, n) == SelectSeq(e.coords, LAMBDA x : x.name = n)
TimesKept == {"init_time", "lead_time"}

\* Coordinates that are stored must be right; those of kept dimensions must be stored.
JudgeCoords(e) ==
  LET vt == Coord(e, "valid_time")
      outdims == UNION {DimSet(e.out[i].a) : i \in DOMAIN e.out}
  IN Fail("valid-time", IF TimesKept \subseteq outdims
                        THEN Len(vt) = 1 /\ DimSet(vt[1].a) = TimesKept
                             /\ \A k \in 1..Size(vt[1].a) : LET g == AsgAt(vt[1].a, k) IN vt[1].a.data[k] = g["init_time"] + g["lead_time"]
                        ELSE TRUE)
     \cup UNION {LET c == e.aux[i] o == Coord(e, c.name)
                 IN IF o = <<>> THEN Fail("coordinate-lost", ~(DimSet(c.a) \cap TimesKept = {} /\ DimSet(c.a) \subseteq outdims))
                    ELSE Fail("coordinate-values",
                              /\ WellFormed(o[1].a) /\ DimSet(o[1].a) = DimSet(c.a)
                              /\ \A k \in 1..Size(o[1].a) : o[1].a.data[k] = ValAt(c.a, AsgAt(o[1].a, k)))
                 : i \in DOMAIN e.aux}

Judge(e) ==
  IF ~e.ok THEN {"pipeline-raised"}
  ELSE LET want == {e.stats[s].name \o "." \o e.vars[v].key : s \in DOMAIN e.stats, v \in DOMAIN e.vars}
           got == {e.out[i].name : i \in DOMAIN e.out}
       IN IF got # want THEN {"stored-variables"}
          ELSE UNION {JudgeVar(e, e.stats[s], e.vars[v], Named(e, e.stats[s], e.vars[v])[1].a) : s \in DOMAIN e.stats, v \in DOMAIN e.vars}
               \cup JudgeCoords(e) \cup JudgeLayout(e)

TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
====
