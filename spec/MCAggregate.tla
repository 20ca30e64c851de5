---- MODULE MCAggregate ----
EXTENDS Aggregate, Json
EmitCase == Done => PrintT("CASE " \o ToJson([op |-> "agg1", val |-> val, ok |-> ok, wt |-> Wt,
  memb |-> [e \in Elems |-> [b \in Bins |-> b \in memb[e]]], masked |-> masked, skipna |-> skipna]))
\* Visiting order is irrelevant (AccIsDefinition), so emit one case per input.
View == <<val, ok, memb, masked, skipna, todo>>
====
