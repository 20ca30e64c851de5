---- MODULE MCTimeChunks ----
EXTENDS TimeChunks, Json
EmitCase == done => PrintT("CASE " \o ToJson([op |-> "chunks", cfg |-> cfg, expect |-> emitted]))
====
