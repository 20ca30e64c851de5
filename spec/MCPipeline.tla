---- MODULE MCPipeline ----
EXTENDS Pipeline, Json
EmitCase == DOMAIN out # {} => PrintT("CASE " \o ToJson([op |-> "sched", ni |-> NI, nl |-> NL, keepI |-> keepI, keepL |-> keepL, hist |-> hist]))
====
