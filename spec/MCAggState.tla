---- MODULE MCAggState ----
EXTENDS AggState, Json
Flat(s) == [z |-> s.z, xs |-> SetToSortSeq(DOMAIN s.f, <), fs |-> [k \in 1..Cardinality(DOMAIN s.f) |-> s.f[SetToSortSeq(DOMAIN s.f, <)[k]]]]
EmitCase == Cardinality(live) = 1 =>
  PrintT("CASE " \o ToJson([op |-> "mc", init |-> [i \in 1..NReg |-> Flat(h0[i])], hist |-> hist]))
====
