---- MODULE TraceLabels ----
(* Judges recorded label/time binnings.  Keys are the elements' own labels:   *)
(* integer codes, strings, seconds, or times [d |-> day, s |-> second].       *)
EXTENDS Labels, LArr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

IsTime(b) == b.kind = "dt"
UnitOf(b, k) == IF IsTime(b) THEN TimeUnit(k, b.unit) ELSE DurationUnit(k, b.unit)
Known(b) == b.scheme \notin {"unit", "unitsets"} \/ IsTime(b)
            \/ b.unit \in {"second", "minute", "hour", "day", "week", "year"}
\* The derived label of an element.
Derived(b, k) ==
  CASE b.scheme \in {"exact", "sets"} -> k
    [] b.scheme \in {"unit", "unitsets"} -> UnitOf(b, k)
    [] b.scheme = "seconds" -> DurationUnit(k, b.unit)
GlobalOf(b) == IF b.scheme \in {"sets", "unitsets"} THEN "global" ELSE Global
SetNamed(b, n) == CHOOSE i \in DOMAIN b.sets : n \in {b.sets[i].name, b.sets[i].notname}
\* All bins, given the set of keys of all elements.
BinsFor(b, keys) ==
  (IF b.global THEN {GlobalOf(b)} ELSE {})
  \cup (CASE b.scheme \in {"exact", "unit"} -> {Derived(b, k) : k \in keys}
          [] b.scheme = "seconds" -> RangeOf(b.bins)
          [] b.scheme \in {"sets", "unitsets"} ->
               {b.sets[i].name : i \in DOMAIN b.sets}
               \cup (IF b.complements THEN {b.sets[i].notname : i \in DOMAIN b.sets} ELSE {}))
In(b, k, bin) ==
  IF b.global /\ bin = GlobalOf(b) THEN TRUE
  ELSE IF b.scheme \in {"sets", "unitsets"}
  THEN LET s == b.sets[SetNamed(b, bin)]
           inside == Derived(b, k) \in RangeOf(s.members)
       IN IF bin = s.name THEN inside ELSE ~inside
  ELSE Derived(b, k) = bin

JudgeMask(e) ==
  LET b == e.binning r == e.res keys == RangeOf(e.key.data) bins == BinsFor(b, keys)
      kd == DimSet(e.key)
  IN IF ~Known(b) THEN Fail("unsupported-unit-accepted", ~e.ok)
     ELSE IF ~e.ok THEN {"binning-raised"}
     ELSE IF ~WellFormed(r) THEN {"mask-malformed"}
     ELSE Fail("bin-dimension-name", e.dimname)
       \cup Fail("mask-dimensions", {"BIN"} \cup kd \subseteq DimSet(r) /\ DimSet(r) \subseteq {"BIN"} \cup RangeOf(e.statdims))
       \cup (IF ~({"BIN"} \cup kd \subseteq DimSet(r)) THEN {}
             ELSE Fail("bin-labels", LabelSet(r, "BIN") = bins)
                  \cup Fail("points-lost-or-invented", \A d \in kd : LabelSet(r, d) = LabelSet(e.key, d))
                  \cup (IF LabelSet(r, "BIN") \subseteq bins /\ \A d \in kd : LabelSet(r, d) \subseteq LabelSet(e.key, d)
                        THEN Fail("wrong-bin-membership",
                              \A i \in 1..Size(r) : LET g == AsgAt(r, i)
                                IN r.data[i] = IF In(b, ValAt(e.key, g), g["BIN"]) THEN 1 ELSE 0)
                        ELSE {}))
       \cup Fail("statistic-changed", e.unchanged)

\* Chunked evaluation: per-bin totals over all elements, whatever the chunks.
Bdim(i) == <<"BIN1", "BIN2">>[i]
JudgeChunked(e) ==
  LET bs == e.binnings n == Len(e.val)
      mem(i, g) == \A j \in DOMAIN bs : In(bs[j], e.keys[j][i], g[Bdim(j)])
      sum(g) == MapThenSumSet(LAMBDA i : IF mem(i, g) THEN e.val[i] ELSE 0, 1..n)
      cnt(g) == MapThenSumSet(LAMBDA i : IF mem(i, g) THEN 1 ELSE 0, 1..n)
      ds == {Bdim(j) : j \in DOMAIN bs}
      lab == [d \in ds |-> LET j == CHOOSE j \in DOMAIN bs : Bdim(j) = d IN BinsFor(bs[j], RangeOf(e.keys[j]))]
      judge(a, f(_), nm) ==
        IF ~WellFormed(a) THEN {nm \o "-malformed"}
        ELSE IF DimSet(a) # ds THEN {nm \o "-dimensions"}
        ELSE IF \E d \in ds : LabelSet(a, d) # lab[d] THEN {nm \o "-bins-lost-or-invented"}
        ELSE Fail(nm \o "-wrong-total", \A i \in 1..Size(a) : a.data[i] = f(AsgAt(a, i)))
  IN IF ~e.ok THEN {"evaluation-raised"}
     ELSE judge(e.sums, sum, "sum") \cup judge(e.counts, cnt, "weight")

Judge(e) == IF e.op = "mask" THEN JudgeMask(e) ELSE JudgeChunked(e)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
TSpec == TInit /\ [][TNext]_l
====
