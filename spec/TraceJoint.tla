---- MODULE TraceJoint ----
(* Judges recorded joint evaluations against the metrics evaluated alone.     *)
EXTENDS LArr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Keys(s) == {<<s[i].metric, s[i].var>> : i \in DOMAIN s}
Get(s, k) == LET q == SelectSeq(s, LAMBDA x : <<x.metric, x.var>> = k) IN q[1].a

\* A result dataset has one coordinate per dimension name, so an array may gain
\* entries at other metrics' labels; those must be missing.
SameOnOwnLabels(a, b) ==
  /\ WellFormed(a) /\ WellFormed(b) /\ DimSet(a) = DimSet(b)
  /\ \A d \in DimSet(a) : LabelSet(a, d) \subseteq LabelSet(b, d)
  /\ \A k \in 1..Size(a) : a.data[k] = ValAt(b, AsgAt(a, k))
  /\ \A k \in 1..Size(b) : HasAt(a, AsgAt(b, k)) \/ b.data[k] = NaN

JudgeJoint(e) ==
  Fail("metric-or-variable-names", Keys(e.joint) = Keys(e.alone) /\ Len(e.joint) = Len(e.alone))
  \cup Fail("joint-values-differ-from-alone",
        \A k \in Keys(e.joint) \cap Keys(e.alone) : SameOnOwnLabels(Get(e.alone, k), Get(e.joint, k)))
  \cup Fail("inputs-changed", e.unchanged)
  \cup Fail("result-not-a-dataset-of-requested-names", e.dsnames = e.wantnames)

\* Synthetic metrics: metric m's value is sum over its slots of 10^(slot-1) * (mean of statistic k = k*p + t).
JudgeSynthetic(e) ==
  LET n == Len(e.p)
      stat(k) == k * SeqSum(e.p) + SeqSum(e.t)
      want(m) == MapThenSumSet(LAMBDA s : (IF s = 1 THEN 1 ELSE 10) * stat(e.uses[m][s]), DOMAIN e.uses[m])
  IN Fail("metric-or-variable-names", {e.got[i].m : i \in DOMAIN e.got} = DOMAIN e.uses)
     \cup Fail("wrong-statistic-used", \A i \in DOMAIN e.got : e.got[i].m \in DOMAIN e.uses =>
            Agrees(e.got[i].v, want(e.got[i].m), n, 4096, 1))

Judge(e) == IF ~e.ok THEN {"joint-evaluation-raised"}
            ELSE IF e.op = "joint" THEN JudgeJoint(e) ELSE JudgeSynthetic(e)

TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
====
