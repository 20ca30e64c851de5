---- MODULE TraceSparse ----
(* Judges recorded load_chunk calls on tables of sparse observations.         *)
EXTENDS Sparse, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Pairs(e) == IF e.mode = "exact" THEN {<<i, x>> : i \in RangeOf(e.inits), x \in RangeOf(e.leads)}
            ELSE {<<i, 0>> : i \in RangeOf(e.inits)}
Tolerant(e) == e.mode # "slice" /\ e.hastol
WindowOf(e, p, incl) ==
  IF e.mode = "slice" THEN [lo |-> p[1] + e.leads[1], hi |-> p[1] + e.leads[2], incl |-> incl]
  ELSE IF e.hastol THEN [lo |-> p[1] + p[2] + e.tol[1], hi |-> p[1] + p[2] + e.tol[2], incl |-> incl]
  ELSE ExactWindow(p[1] + p[2])
Matching(e, p, incl) == {k \in DOMAIN e.rows : InWindow(WindowOf(e, p, incl), e.rows[k].t)}
\* Columns as delivered.
Bad(f) == f \in {"Z", "B", "X", "Q", "k"}
ValueOf(e, k, v) == LET r == e.rows[k] x == r.vals[v]
                    IN IF e.metar /\ Bad(r.qc[v]) THEN NaN ELSE IF x = NaN THEN NaN ELSE e.scale * x
Lon(e, k) == IF e.metar THEN e.rows[k].lon % 360 ELSE e.rows[k].lon
Elev(e, k) == IF e.metar /\ e.rows[k].elev # NaN /\ e.rows[k].elev >= 9999 THEN NaN ELSE e.rows[k].elev
\* Is row k removed as missing, for output variable v?
Missing(e, k, v) == e.dropna /\ (IF e.split THEN ValueOf(e, k, v) = NaN
                                 ELSE \E u \in RangeOf(e.vars) : ValueOf(e, k, u) = NaN)
Dist(e, p, k) == IF e.pick = "none" THEN 0 ELSE Abs((IF e.pick = "other" THEN e.rows[k].other ELSE e.rows[k].t) - (p[1] + p[2]))
\* Rows that may represent a station.
Nearest(e, p, ks) == {k \in ks : \A j \in ks : Dist(e, p, k) <= Dist(e, p, j)}

\* Output rows of variable v labelled with pair p.
RowsOf(o, e, p) == {i \in DOMAIN o.rows : e.mode = "none" \/ o.rows[i].init = p[1]}
LeadOk(e, p, r) == e.mode = "none" \/ (e.mode = "slice" /\ r.lead = e.rows[r.rid].t - p[1]) \/ (e.mode = "exact" /\ r.lead = p[2])
Of(o, e, p) == {i \in DOMAIN o.rows : LET r == o.rows[i] IN
      (e.mode = "none" /\ r.asked = p[1]) \/ (e.mode = "slice" /\ r.init = p[1]) \/ (e.mode = "exact" /\ r.init = p[1] /\ r.lead = p[2])}
JudgePair(e, o, p) ==
  LET v == o.var
      ids == {o.rows[i].rid : i \in Of(o, e, p)}
      must == Matching(e, p, e.incl)
      may == IF Tolerant(e) THEN Matching(e, p, TRUE) ELSE must
      keep(ks) == {k \in ks : ~Missing(e, k, v)}
      stations(ks) == {e.rows[k].st : k \in ks}
      ofst(ks, s) == {k \in ks : e.rows[k].st = s}
  IN Fail("observation-returned-twice", Cardinality(ids) = Cardinality(Of(o, e, p)))
     \cup Fail("observation-outside-the-request", ids \subseteq may)
     \cup Fail("missing-observation-not-dropped", ids \cap may \subseteq keep(may))
     \cup (IF ~e.dedup THEN Fail("observation-lost", keep(must) \subseteq ids)
           ELSE Fail("duplicate-station-kept", \A s \in stations(may) : Cardinality(ofst(ids \cap may, s)) <= 1)
             \cup Fail("not-the-closest-duplicate",
                   \A s \in stations(may) : ofst(ids \cap may, s) \subseteq Nearest(e, p, ofst(may, s)) \cup Nearest(e, p, ofst(must, s)))
             \cup Fail("observation-lost",
                   \A s \in stations(must) : (\A k \in Nearest(e, p, ofst(must, s)) \cup Nearest(e, p, ofst(may, s)) : ~Missing(e, k, v)) => ofst(ids, s) # {}))
JudgeRow(e, o, r) ==
  IF r.rid \notin DOMAIN e.rows THEN {"row-invented"}
  ELSE Fail("wrong-value", r.val = ValueOf(e, r.rid, o.var))
       \cup Fail("wrong-valid-time", r.vt = e.rows[r.rid].t)
       \cup Fail("wrong-lead-time", e.mode # "slice" \/ r.lead = e.rows[r.rid].t - r.init)
       \cup Fail("wrong-coordinates", r.st = e.rows[r.rid].st /\ r.lon = Lon(e, r.rid) /\ r.elev = Elev(e, r.rid))
       \cup Fail("not-labelled-with-the-request", e.mode = "none" \/ (r.init \in RangeOf(e.inits) /\ (e.mode = "slice" \/ r.lead \in RangeOf(e.leads))))
       \cup Fail("wrong-missing-data-mask", ~e.nanmask \/ r.mask = (IF ValueOf(e, r.rid, o.var) = NaN THEN 0 ELSE 1))
\* Without lead times the init time asked for is not logged: all rows together.
JudgeNone(e, o) ==
  LET ids == {o.rows[i].rid : i \in DOMAIN o.rows}
      count(k) == Cardinality({i \in DOMAIN o.rows : o.rows[i].rid = k})
      hits(k, incl) == Cardinality({p \in Pairs(e) : k \in Matching(e, p, incl)})
  IN Fail("observation-outside-the-request", \A k \in ids : hits(k, TRUE) > 0)
     \cup Fail("observation-lost", e.dedup \/ \A k \in DOMAIN e.rows : Missing(e, k, o.var) \/ count(k) >= hits(k, e.incl))
     \cup Fail("observation-returned-twice", e.dedup \/ \A k \in ids \cap DOMAIN e.rows : count(k) <= hits(k, TRUE))
     \cup Fail("missing-observation-not-dropped", \A k \in ids \cap DOMAIN e.rows : ~Missing(e, k, o.var))
JudgeVar(e, o) ==
  UNION {JudgeRow(e, o, o.rows[i]) : i \in DOMAIN o.rows}
  \cup (IF e.mode = "none" THEN JudgeNone(e, o) ELSE UNION {JudgePair(e, o, p) : p \in Pairs(e)})
Rejected(e) == (e.mode = "slice" /\ (e.hastol \/ e.dedup))
Judge(e) ==
  IF Rejected(e) THEN Fail("incompatible-options-accepted", ~e.ok)
  ELSE IF ~e.ok THEN {"load-raised"}
  ELSE Fail("wrong-variables", {e.out[i].var : i \in DOMAIN e.out} = RangeOf(e.vars))
       \cup UNION {JudgeVar(e, e.out[i]) : i \in DOMAIN e.out}

TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
====
