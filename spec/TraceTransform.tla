---------------------------- MODULE TraceTransform ----------------------------
(* Judges recorded inputs of statistics wrapped with chains of transforms.    *)
EXTENDS Transform, Stats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Sides == {"predictions", "targets"}
In(v, side) == IF side = "predictions" THEN v.p ELSE v.t
MaskIn(v, side) == IF side = "predictions" THEN v.pm ELSE v.tm
\* the variables that the transforms see, and those in the result
Seen(e) == {v \in RangeOf(e.vars) : e.sub = <<>> \/ ~e.subfirst \/ v.name \in RangeOf(e.sub[1])}
Kept(e) == {v \in RangeOf(e.vars) : e.sub = <<>> \/ v.name \in RangeOf(e.sub[1])}
Exp(e, v, side) == TLCEval(Renumbered(Chained(e.chain, side, Fractions(In(v, side)), v.name), PlainDims(e.chain, side, {})))
OutOf(e, v, side) == {x \in RangeOf(e.out) : x.name = v.name /\ x.side = side}

JudgeArr(x, m) ==
  IF ~WellFormed(x) THEN {"result-malformed"}
  ELSE IF DimSet(x) # DimSet(m) THEN {"result-dimensions"}
  ELSE IF ~(\A d \in DimSet(m) : LabelSet(x, d) = LabelSet(m, d)) THEN {"result-labels"}
  ELSE UNION {LET y == ValAt(m, AsgAt(x, k))
              IN Fail("transformed-value", IF y = Miss THEN x.data[k] = NaN
                                            ELSE IF RInf(y) THEN x.data[k] = (IF y[1] > 0 THEN PInf ELSE NInf)
                                            ELSE RatAgrees(x.data[k], y[1], y[2], 2048, 1))
              : k \in 1..Size(x)}
JudgeMask(e, v, side, x) ==
  IF MaskIn(v, side) = <<>> THEN Fail("mask-invented", x.mask = <<>>)
  ELSE LET m == Renumbered(MaskChained(e.chain, side, MaskIn(v, side)[1], Fractions(In(v, side)), v.name), PlainDims(e.chain, side, {}))
       IN IF IsBad(m) THEN {}
          ELSE IF x.mask = <<>> THEN {"mask-lost"}
          ELSE IF ~WellFormed(x.mask[1]) \/ ~(DimSet(x.mask[1]) \subseteq DimSet(x.arr)) THEN {"mask-malformed"}
          ELSE UNION {LET o == AsgAt(x.arr, k)
                      IN Fail("mask-follows", HasAt(x.mask[1], o) /\ ValAt(x.mask[1], On(o, x.mask[1])) = ValAt(m, On(o, m)))
                      : k \in 1..Size(x.arr)}
\* the edges of bins: each bin reaches from its left edge to the next threshold
JudgeEdges(x) ==
  UNION {LET b == x.edges[i]
             ls == b.thr
         IN Fail("bin-edges", \A k \in DOMAIN b.left : \E j \in 1..Len(ls) - 1 : ls[j] = b.left[k] /\ ls[j + 1] = b.right[k])
         : i \in DOMAIN x.edges}

JudgeWrapped(e) ==
  IF \E v \in Seen(e) : \E s \in Sides : IsBad(Exp(e, v, s))
  THEN Fail("undefined-accepted", ~e.ok)
  ELSE IF ~e.ok THEN {"wrapped-raised"}
  ELSE Fail("variables", {x.name : x \in RangeOf(e.out)} = {v.name : v \in Kept(e)})
       \cup UNION {UNION {IF Cardinality(OutOf(e, v, s)) # 1 THEN {"variable-missing"}
                          ELSE LET x == CHOOSE y \in OutOf(e, v, s) : TRUE
                                   f == JudgeArr(x.arr, Exp(e, v, s))
                               IN f \cup (IF f = {} THEN JudgeMask(e, v, s, x) \cup JudgeEdges(x) ELSE {})
                          : s \in Sides} : v \in Kept(e)}

Judge(e) ==
  (CASE e.op = "wrapped" -> JudgeWrapped(e)
    [] e.op = "rejected" -> Fail("bad-request-accepted", ~e.ok))
  \cup (IF "unchanged" \in DOMAIN e THEN Fail("inputs-changed", e.unchanged) ELSE {})
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
=============================================================================
