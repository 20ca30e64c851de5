---- MODULE TracePipeline ----
(* Judges recorded pipeline runs: every requested pair must be counted exactly *)
(* once, in its own bins / kept coordinates, whatever the schedule.            *)
EXTENDS Aggregate, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

StatVal(kind, p, t) ==
  IF kind = "pred" THEN p     \* looks at the forecast only
  ELSE IF ~IsNum(p) \/ ~IsNum(t) THEN NaN
  ELSE CASE kind = "err" -> p - t [] kind = "abs" -> Abs(p - t) [] kind = "sq" -> (p - t) * (p - t)
StatArr(kind, v) == [v.t EXCEPT !.data = [k \in DOMAIN v.t.data |-> StatVal(kind, v.p.data[k], v.t.data[k])]]

\* Membership arrays of the binnings, from the labels themselves.
\* kind "initday"/"leadday": labels are hours, bins are days; "exact": own label.
UnitOf(kind, h) == CASE kind = "day" -> h \div 24 [] kind = "hour" -> h % 24 [] kind = "exact" -> h
BinArr(stat, b) ==
  LET ls == IF b.over \in DimSet(stat) THEN LabelsOf(stat, b.over) ELSE <<>>
      us == SetToSeq({UnitOf(b.kind, ls[i]) : i \in DOMAIN ls})
  IN [dim |-> b.dim, arr |-> [dims |-> <<b.over, b.dim>>, labels |-> <<ls, us>>,
      data |-> [k \in 1..(Len(ls) * Len(us)) |->
                  IF UnitOf(b.kind, ls[((k - 1) \div Len(us)) + 1]) = us[((k - 1) % Len(us)) + 1] THEN 1 ELSE 0]]]
\* For list-of-observations data the unit is read from the observation's own time.
ObsBinArr(b, obst) ==
  LET us == SetToSeq({UnitOf(b.kind, obst[i]) : i \in DOMAIN obst})
  IN [dim |-> b.dim, arr |-> [dims |-> <<"index", b.dim>>, labels |-> <<[i \in DOMAIN obst |-> i], us>>,
      data |-> [k \in 1..(Len(obst) * Len(us)) |->
                  IF UnitOf(b.kind, obst[((k - 1) \div Len(us)) + 1]) = us[((k - 1) % Len(us)) + 1] THEN 1 ELSE 0]]]
BinsFor(e, stat) == [i \in DOMAIN e.bins |->
   IF e.mode = "sparse" THEN ObsBinArr(e.bins[i], IF e.bins[i].over = "init_time" THEN e.obsinit ELSE e.obslead)
   ELSE BinArr(stat, e.bins[i])]

R(e) == RangeOf(e.reduce)
VarKept(e, v) == /\ R(e) \subseteq DimSet(v.t)
                 /\ \A i \in DOMAIN e.bins : e.mode = "sparse" \/ e.bins[i].over \in DimSet(v.t)
Expect(e) == {<<s, v>> \in (DOMAIN e.stats) \X (DOMAIN e.vars) : VarKept(e, e.vars[v])}
StateOf(e, s, v) == SelectSeq(e.state, LAMBDA x : x.stat = e.stats[s].name /\ x.var = e.vars[v].key)
MetOf(e, m, v) == SelectSeq(e.metrics, LAMBDA x : x.metric = e.mets[m].name /\ x.var = e.vars[v].key)

\* Coordinates that describe kept dimensions come with the result, however the
\* evaluation was cut into chunks, and say the same about the same labels.
AuxDims == [elev |-> {"x"}, run |-> {"init_time"}, valid_time |-> {"init_time", "lead_time"}]
AuxVal(n, g) == CASE n = "elev" -> 10 * g["x"] [] n = "run" -> 1000 + g["init_time"]
                  [] n = "valid_time" -> g["init_time"] + g["lead_time"]
AuxOK(e, item, arr) ==
  e.aux = 1 => \A n \in DOMAIN AuxDims : AuxDims[n] \subseteq DimSet(arr) =>
     \E i \in DOMAIN item.aux : /\ item.aux[i].name = n
                              /\ LET a == item.aux[i].a
                                 IN /\ WellFormed(a) /\ DimSet(a) = AuxDims[n]
                                    /\ \A d \in AuxDims[n] : RangeOf(LabelsOf(a, d)) = RangeOf(LabelsOf(arr, d))
                                    /\ \A k \in 1..Size(a) : a.data[k] = AuxVal(n, AsgAt(a, k))
JudgeState(e) ==
  Fail("state-variables", {<<x.stat, x.var>> : x \in RangeOf(e.state)}
                           = {<<e.stats[p[1]].name, e.vars[p[2]].key>> : p \in Expect(e)})
  \cup UNION {
    LET v == e.vars[p[2]] st == StatArr(e.stats[p[1]].kind, v) o == StateOf(e, p[1], p[2])
    IN IF Len(o) # 1 THEN {"state-variables"}
       ELSE AggVerdict(o[1].s, o[1].w, st, v.mask, e.masked, FALSE, R(e), v.weights, BinsFor(e, st))
            \cup Fail("auxiliary-coordinates", AuxOK(e, o[1], o[1].s))
    : p \in Expect(e)}

\* the metric is the (squared, for rmse) ratio of the state's sums
JudgeMetrics(e) ==
  LET ks == {<<m, v>> \in (DOMAIN e.mets) \X (DOMAIN e.vars) : VarKept(e, e.vars[v])}
  IN Fail("metric-variables", {<<x.metric, x.var>> : x \in RangeOf(e.metrics)}
                               = {<<e.mets[p[1]].name, e.vars[p[2]].key>> : p \in ks})
     \cup UNION {
       LET o == MetOf(e, p[1], p[2])
           s == SelectSeq(e.state, LAMBDA x : x.stat = e.mets[p[1]].stat /\ x.var = e.vars[p[2]].key)
       IN IF Len(o) # 1 \/ Len(s) # 1 THEN {"metric-variables"}
          ELSE LET a == o[1].a
               IN Fail("metric-frame", WellFormed(a) /\ SameFrame(a, s[1].s))
                  \cup Fail("auxiliary-coordinates", AuxOK(e, o[1], a))
                  \cup (IF ~(WellFormed(a) /\ SameFrame(a, s[1].s)) THEN {} ELSE
                        Fail("metric-value", \A k \in 1..Size(a) :
                          LET g == AsgAt(a, k) sv == ValAt(s[1].s, g) wv == ValAt(s[1].w, g)
                          IN IF wv = 0 THEN a.data[k] = NaN \/ (IsNum(sv) /\ sv # 0)
                             ELSE Agrees(a.data[k], sv, wv, e.mscale, IF e.mscale = 1 THEN 1 ELSE 2)))
       : p \in ks}

Judge(e) == IF ~e.ok THEN {"pipeline-raised"}
            ELSE LET b == JudgeState(e) IN IF b # {} THEN b ELSE JudgeMetrics(e)

TInit == l = 1 /\ val = 0 /\ ok = 0 /\ memb = 0 /\ masked = 0 /\ skipna = 0 /\ todo = {} /\ acc = 0
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
====
