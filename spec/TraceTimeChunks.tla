---- MODULE TraceTimeChunks ----
(* Judges recorded uses of the time-chunk iterator against TimeChunks.        *)
EXTENDS TimeChunks, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Expected(g) == [k \in 1..Total(g) |-> ChunkAt(g, k - 1)]

JudgeChunks(e) ==
  IF ~e.ok THEN {"request-rejected"}
  ELSE LET g == e.cfg
           x == Expected(g)
       IN Fail("iteration", e.iter = x)
          \cup Fail("second-iteration", e.again = x)
          \cup Fail("length", e.len = Total(g))
          \cup Fail("indexing", e.items = x)
          \cup Fail("offset-iteration-chunks", e.offchunks = x)
          \cup Fail("offsets", e.offsets = [k \in 1..Total(g) |-> OffsetAt(g, k - 1)])
          \cup Fail("out-of-range-index-accepted", e.below /\ e.above)
          \cup Fail("reported-axes", e.axes = <<[i \in 1..g.ni |-> i], [i \in 1..g.nl |-> i]>>)
          \cup Fail("interval-altered", g.interval => e.intervals)
JudgeReject(e) == Fail("ill-formed-request-accepted", ~e.ok)

Judge(e) == CASE e.op = "chunks" -> JudgeChunks(e)
              [] e.op = "reject" -> JudgeReject(e)

TInit == l = 1 /\ cfg = 0 /\ emitted = <<>> /\ done = FALSE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
====
