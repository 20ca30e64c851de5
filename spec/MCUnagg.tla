---- MODULE MCUnagg ----
EXTENDS Unagg, Json
Emit == pending = {} /\ unwritten = ZChunks
          => PrintT("CASE " \o ToJson([ni |-> ni, nl |-> nl, ci |-> ci, cl |-> cl, zi |-> zi, zl |-> zl, hist |-> hist]))
\* for emission: storage chunks play no role in the order of evaluation
FewChunks == Cardinality(Chunks) > 4 \/ (unwritten # ZChunks)
EmitConstraint == ~FewChunks
====
