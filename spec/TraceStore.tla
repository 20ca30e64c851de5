---- MODULE TraceStore ----
(* C11. Histories of loading, adding, saving and restoring aggregation states. *)
(* "store" saves register a in one of the stored forms and restores it as dst; *)
(* the restored state must be the same state (values, frame, coordinates, and  *)
(* each statistic/variable name), whatever happens to it afterwards.           *)
EXTENDS TraceAggState

\* Coordinates are logged as [key, side, name, kind, dims, labels].
CoordsOf(cs, key, side) == {<<c.name, c.kind, c.dims, c.labels>> : c \in {cs[i] : i \in {j \in DOMAIN cs : cs[j].key = key /\ cs[j].side = side}}}
AllCoords(cs) == {<<cs[i].name, cs[i].kind, cs[i].dims, cs[i].labels>> : i \in DOMAIN cs}
\* dimension labels may be reordered by a flat table; their values are judged by SameArr
NotIndex(S) == {c \in S : c[3] # <<c[1]>>}

\* Stored trees keep every coordinate where it was; in flat tables a coordinate
\* may also appear at other arrays with the same dimensions.
CoordsKept(e, v) ==
  \A i \in DOMAIN v : \A side \in {"s", "w"} :
    LET old == CoordsOf(e.coords_a, v[i].key, side)
        new == CoordsOf(e.coords_d, v[i].key, side)
    IN /\ NotIndex(old) \subseteq new
       /\ {<<c[1], c[2]>> : c \in old} \subseteq {<<c[1], c[2]>> : c \in new}
       /\ IF e.tree THEN {<<c[1], c[2]>> : c \in new} = {<<c[1], c[2]>> : c \in old} /\ NotIndex(new) = NotIndex(old)
          ELSE NotIndex(new) \subseteq AllCoords(e.coords_a)

\* The variables of a flat table are named statistic # variable # side: every
\* path of the state with both of its sides, and nothing else.
RECURSIVE Join(_)
Join(p) == IF Len(p) = 0 THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Join(Tail(p))
NamesKept(e, a) ==
  /\ {Join(p) : p \in RangeOf(e.paths)} = Keys(a)
  /\ \A i \in DOMAIN e.flat :
       /\ Len(e.flat[i]) = 2 * Len(e.paths)
       /\ RangeOf(e.flat[i]) = {Append(p, side) : p \in RangeOf(e.paths), side \in {"sum_weighted_statistics", "sum_weights"}}

JudgeStore(e, pre) ==
  IF ~e.ok THEN {"save-or-restore-raised"}
  ELSE LET a == pre[e.a]
           d == e.heap[e.dst]
       IN (IF a.z # d.z THEN {"restored-emptiness"}
           ELSE IF Keys(a) # Keys(d) \/ Len(a.v) # Len(d.v) THEN {"restored-names"}
           ELSE UNION {Fail("restored-weighted-statistics", SameArr(Of(a, k).s, Of(d, k).s))
                       \cup Fail("restored-weights", SameArr(Of(a, k).w, Of(d, k).w)) : k \in Keys(a)}
                \cup Fail("restored-coordinates", CoordsKept(e, a.v))
                \cup Fail("stored-names", NamesKept(e, a)))
          \cup Unchanged(e, pre, {e.dst})

\* Metrics of an original and of a restored (or otherwise equal) state.
JudgeMetrics(e, pre) ==
  IF ~e.ok THEN {"metrics-of-restored-state-raised"}
  ELSE LET names(m) == {m[i].key : i \in DOMAIN m}
           of(m, k) == (CHOOSE i \in DOMAIN m : m[i].key = k)
       IN Fail("metric-names", names(e.ma) = names(e.mb) /\ Len(e.ma) = Len(e.mb) /\ names(e.ma) = {<<k>>[1] : k \in RangeOf(e.want)})
          \cup Fail("metric-values", names(e.ma) = names(e.mb) => \A k \in names(e.ma) : SameArr(e.ma[of(e.ma, k)].s, e.mb[of(e.mb, k)].s))
          \cup Unchanged(e, pre, {})

Judge11(e, pre) ==
  CASE e.op = "store" -> JudgeStore(e, pre)
    [] e.op = "metrics" -> JudgeMetrics(e, pre)
    [] OTHER -> Judge(e, pre)

TNext11 == /\ l <= Len(Trace)
           /\ l' = l + 1
           /\ LET e == Trace[l]
                  pre == IF e.first THEN <<>> ELSE regs
                  b == Judge11(e, pre)
              IN /\ IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
                 /\ regs' = IF e.ok THEN e.heap ELSE pre
           /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
           /\ UNCHANGED vars
TSpec11 == TInit /\ [][TNext11]_<<l, regs, vars>>
====
