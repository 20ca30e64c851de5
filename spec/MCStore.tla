---- MODULE MCStore ----
EXTENDS Store, Json
\* names with and without punctuation; the second statistic is a prefix of the first
CleanStats == {<<"A">>, <<"A", ".">>}
CleanVars == {<<"u">>, <<"A">>, <<".", "u">>}
DirtyStats == {<<"A">>, <<"A", "#", "u">>}
DirtyVars == {<<"u">>, <<"u", "#", "u">>}
EmitLeaves == {<<<<"A">>, <<"u">>>>, <<<<"sum_weights">>, <<"A">>>>}
\* Emit the finished histories (for one fixed set of names).
Emit == Cardinality(live) = 1 /\ DOMAIN h[CHOOSE r \in live : TRUE] = Leaves
          => PrintT("CASE " \o ToJson([hist |-> hist]))
====
