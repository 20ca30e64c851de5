---- MODULE TraceAggregate ----
(* Judges recorded aggregations (C03, C04).                                   *)
EXTENDS Aggregate, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Names(out) == {out[i].key : i \in DOMAIN out}
OutOf(out, k) == out[CHOOSE i \in DOMAIN out : out[i].key = k]
R(e) == RangeOf(e.reduce)

JudgeVar(e, v, out) ==
  LET present == v.has /\ Kept(v.stat, R(e), e.bins)
  IN IF ~present THEN Fail("variable-not-left-out", v.key \notin Names(out))
     ELSE IF v.key \notin Names(out) THEN {"variable-lost"}
     ELSE AggVerdict(OutOf(out, v.key).s, OutOf(out, v.key).w, v.stat, v.mask,
                     e.masked, e.skipna, R(e), e.weights, e.bins)

JudgeMean(e) ==
  UNION {LET m == e.mean[i].s
             s == OutOf(e.out, e.mean[i].key).s
             w == OutOf(e.out, e.mean[i].key).w
         IN Fail("mean-not-ratio", \A k \in 1..Size(m) :
              LET g == AsgAt(m, k) sv == ValAt(s, g) wv == ValAt(w, g)
              IN IF wv = 0 THEN m.data[k] \in {NaN, PInf, NInf} /\ (~IsNum(sv) \/ sv = 0 => m.data[k] = NaN)
                 ELSE IF sv \in {PInf, NInf} THEN m.data[k] = sv
                 ELSE Agrees(m.data[k], sv, wv, 1024, 2))
         : i \in DOMAIN e.mean}

JudgeAgg(e) ==
  IF ~e.ok THEN {"aggregation-raised"}
  ELSE Fail("output-names-differ-between-sum-and-weight", e.samenames)
       \cup Fail("input-changed", e.unchanged)
       \cup Fail("unknown-output", Names(e.out) \subseteq {e.vars[i].key : i \in DOMAIN e.vars})
       \cup UNION {JudgeVar(e, e.vars[i], e.out) : i \in DOMAIN e.vars}
       \cup JudgeMean(e)

\* A masked mean must be the same whatever sits in the masked positions.
JudgePair(e) == IF ~e.ok THEN {"aggregation-raised"} ELSE Fail("masked-value-leaked", e.out1 = e.out2)

\* Loader mask: true exactly where the final data is not missing.
JudgeLoader(e) ==
  IF ~e.ok THEN {"load-raised"}
  ELSE UNION {
    LET v == e.vars[i]
    IN (IF e.masking
        THEN Fail("mask-missing", v.hasmask)
             \cup (IF v.hasmask THEN Fail("mask-wrong",
                     /\ SameFrame(v.mask, v.data)
                     /\ \A k \in 1..Size(v.data) :
                          ValAt(v.mask, AsgAt(v.data, k)) = (IF IsNum(v.data.data[k]) THEN 1 ELSE 0)) ELSE {})
        ELSE Fail("mask-not-requested", ~v.hasmask))
       \cup Fail("data-altered-by-masking", SameArr(v.data, v.plain))
       \cup (IF v.hasstat
             THEN Fail("mask-lost-in-statistic", v.hasmask => v.statmask # <<>>)
                  \cup (IF v.hasmask /\ v.statmask # <<>>
                        THEN Fail("mask-changed-in-statistic", SameArr(v.statmask[1], v.mask)) ELSE {})
             ELSE {})
    : i \in DOMAIN e.vars}

Judge(e) == CASE e.op = "agg" -> JudgeAgg(e)
              [] e.op = "pair" -> JudgePair(e)
              [] e.op = "loader" -> JudgeLoader(e)
              [] e.op = "dupbins" -> Fail("duplicate-bin-dimension-accepted", ~e.ok)

TInit == l = 1 /\ val = 0 /\ ok = 0 /\ memb = 0 /\ masked = 0 /\ skipna = 0 /\ todo = {} /\ acc = 0
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
====
