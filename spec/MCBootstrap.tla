---- MODULE MCBootstrap ----
EXTENDS Bootstrap, Json
MCKinds == {"iid", "cluster", "block"}
MCValues == {1, 3}
Start == draws = <<>> /\ (\A u \in 1..n : ws[u] = 1 /\ w[u] = 1)
Emit == (Start /\ kind = "cluster") => PrintT("CASE " \o ToJson([n |-> n, group |-> group]))

EmitOnly == draws = <<>> /\ \A u \in 1..n : w[u] = 1
====
