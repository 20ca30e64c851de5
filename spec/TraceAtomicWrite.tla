---- MODULE TraceAtomicWrite ----
(* Judges observed writer schedules: what readers could see after every       *)
(* filesystem operation, and what each writer reported.                       *)
EXTENDS AtomicWrite, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

DestBefore(e, i) == IF i = 1 THEN e.before ELSE e.steps[i - 1].dest
JudgeSchedule(e) ==
  LET n == Len(e.steps)
      W == DOMAIN e.content
      mine(i) == e.content[e.steps[i].w]
      fine(w) == e.parent \/ e.mkdir    \* the parent directory can exist
  IN Fail("partial-contents-visible", \A i \in 1..n : e.steps[i].dest # Partial)
     \cup Fail("published-somebody-elses-contents",
           \A i \in 1..n : e.steps[i].dest \notin {DestBefore(e, i), Partial} => e.steps[i].dest = mine(i))
     \cup Fail("previous-version-vanished",
           \A i \in 1..n : e.steps[i].dest = Absent => DestBefore(e, i) = Absent)
     \cup Fail("success-without-publishing",
           \A w \in W : e.status[w] = "ok" => \E i \in 1..n : e.steps[i].w = w /\ e.steps[i].dest = e.content[w])
     \cup Fail("failure-after-publishing",
           \A w \in W : e.status[w] = "err" =>
              \A i \in 1..n : e.steps[i].w = w => e.steps[i].dest = DestBefore(e, i))
     \cup Fail("temporary-left-behind", (\A w \in W : e.status[w] \in {"ok", "err"} => e.left[w] = 0) /\ e.others = 0)
     \cup Fail("temporary-shared", ~e.shared)
     \cup Fail("failed-without-a-fault", \A w \in W : fine(w) /\ ~e.faulted[w] => e.status[w] \in {"ok", "dead"})
     \cup Fail("fault-swallowed", \A w \in W : e.faulted[w] => e.status[w] # "ok"
                                   \/ \E i \in 1..n : e.steps[i].w = w /\ e.steps[i].dest = e.content[w])
     \cup Fail("hung", \A w \in W : e.status[w] # "hung")
     \cup Fail("directory-created-unasked", ~e.parent /\ ~e.mkdir => ~e.madedir)
     \cup Fail("final-version", e.final \in {e.before} \cup RangeOf(e.content))

JudgeLocal(e) ==
  Fail("partial-contents-visible", \A x \in RangeOf(e.seen) : x # Partial)
  \cup Fail("previous-version-vanished", e.old => 0 \notin RangeOf(e.seen))
  \cup Fail("final-version", e.final \in 1..e.n)
  \cup Fail("temporary-left-behind", e.files = 1)
  \cup Fail("failed-without-a-fault", e.nerr = 0)

Judge(e) == CASE e.op = "schedule" -> JudgeSchedule(e) [] e.op = "local" -> JudgeLocal(e)

TInit == /\ l = 1 /\ dest = 0 /\ had = 0 /\ tmp = 0 /\ pc = 0 /\ faults = 0 /\ kills = 0 /\ published = 0 /\ hist = 0
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ LET b == Judge(Trace[l])
            IN IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson(<<l, SetToSeq(b)>>))
         /\ IF l = Len(Trace) THEN PrintT("DONE " \o ToJson(l)) ELSE TRUE
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
====
