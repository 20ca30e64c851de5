------------------------------ MODULE MCLatency ------------------------------
(* Operational view: forecasts start at their nominal times, arrive in the    *)
(* store after the latency of their source; a request made now is served from *)
(* the store.  The serving rule must pick exactly the newest stored forecast. *)
EXTENDS Latency, Json
CONSTANTS Horizon, Nominals, Latencies
VARIABLES srcs, now, running, store, served
vars == <<srcs, now, running, store, served>>
Sources == [noms : SUBSET Nominals, latency : Latencies]
Init == /\ srcs \in [1..2 -> Sources]
        /\ now = 0 /\ running = {} /\ store = {} /\ served = <<>>
Started(t) == {<<k, n>> \in (1..2) \X Nominals : n = t /\ n \in srcs[k].noms}
Arriving(t, run) == {x \in run : x[2] + srcs[x[1]].latency = t}
\* One minute passes: forecasts start, finished ones arrive.
Tick == /\ now < Horizon /\ served = <<>>
        /\ now' = now + 1
        /\ LET run == running \cup Started(now)
               arr == Arriving(now, run)
           IN running' = run \ arr /\ store' = store \cup arr
        /\ UNCHANGED <<srcs, served>>
\* Request at time now - 1 (everything of that minute has arrived).
Request == /\ now > 0 /\ served = <<>>
           /\ LET best == {x \in store : \A y \in store : y[2] < x[2] \/ (y[2] = x[2] /\ srcs[y[1]].latency <= srcs[x[1]].latency)}
              IN served' = IF best = {} THEN <<now - 1, "refused", {}>> ELSE <<now - 1, "served", best>>
           /\ UNCHANGED <<srcs, now, running, store>>
Next == Tick \/ Request \/ (served # <<>> /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
q == served[1]
NoLookAhead == served # <<>> => \A x \in served[3] : x[2] + srcs[x[1]].latency <= q
RuleIsOperational == served # <<>> =>
   /\ served[3] = {<<k, Newest(srcs[k], q)>> : k \in Serving(srcs, q)}
   /\ (served[2] = "refused" <=> Serving(srcs, q) = {})
Maximal == served # <<>> => \A k \in 1..2 : \A n \in srcs[k].noms :
     (n + srcs[k].latency <= q) => \E x \in served[3] : x[2] >= n
Emit == (served # <<>>) => PrintT("CASE " \o ToJson([s1 |-> SetToSeq(srcs[1].noms), l1 |-> srcs[1].latency, s2 |-> SetToSeq(srcs[2].noms), l2 |-> srcs[2].latency, q |-> q]))
=============================================================================
