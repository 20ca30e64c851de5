------------------------------ MODULE MCLoader ------------------------------
(* Requests against an archive with gaps: a request is answered completely or *)
(* refused, and answers do not depend on how the request is split in chunks.  *)
EXTENDS Loader, Json
CONSTANTS T, Leads, Inits
VARIABLES arch, ini, led, split, out, todo
vars == <<arch, ini, led, split, out, todo>>
InitSets == {s \in SUBSET Inits : s # {}}
LeadSets == {s \in SUBSET Leads : s # {}}
Init == /\ arch \in {0..T \ m : m \in {x \in SUBSET (0..T) : Cardinality(x) <= 1}}
        /\ ini \in InitSets /\ led \in LeadSets
        /\ split \in [ini -> 1..2]
        /\ out = <<>> /\ todo = {c \in 1..2 : \E i \in ini : split[i] = c}
Chunk(c) == {i \in ini : split[i] = c}
\* Archive value of time t is t itself.
Answer(is) == IF \E i \in is, l \in led : TargetTime(i, l) \notin arch THEN "refused"
              ELSE "answered"
Values(is) == [g \in is \X led |-> TargetTime(g[1], g[2])]
Load(c) == /\ c \in todo /\ todo' = todo \ {c}
           /\ out' = (IF Answer(Chunk(c)) = "refused" THEN out ELSE [g \in DOMAIN out \cup DOMAIN Values(Chunk(c)) |->
                         IF g \in DOMAIN out THEN out[g] ELSE Values(Chunk(c))[g]])
           /\ UNCHANGED <<arch, ini, led, split>>
Next == (\E c \in 1..2 : Load(c)) \/ (todo = {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
SplitInvisible == (todo = {} /\ Answer(ini) = "answered") => out = Values(ini)
NothingInvented == \A g \in DOMAIN out : out[g] \in arch /\ out[g] = g[1] + g[2]
RefusedIffMissing == todo = {} =>
   ((\E i \in ini, l \in led : i + l \notin arch) <=> DOMAIN out # ini \X led)
PersistenceAtZero == \A i \in Inits : PersistenceTime(i, 0) = TargetTime(i, 0)
Emit == (out = <<>> /\ todo = {c \in 1..2 : \E i \in ini : split[i] = c}) =>
  PrintT("CASE " \o ToJson([arch |-> SetToSeq(arch), inits |-> SetToSeq(ini), leads |-> SetToSeq(led), split |-> [k \in 1..Cardinality(ini) |-> split[SetToSeq(ini)[k]]]]))
=============================================================================
