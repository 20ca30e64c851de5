------------------------------- MODULE Joint -------------------------------
(* C05. Evaluating several metrics in one pass.  Metric m needs the statistic *)
(* uses[m][s] under its own internal slot name s; statistics are shared by    *)
(* external name.  Joint evaluation keeps one table name -> statistic, filled *)
(* in any order; each metric then reads its statistics by name.               *)
EXTENDS VLib, Json

CONSTANTS Metrics, Slots, Stats, Distinct
VARIABLES uses, name, table, todo, computed, result
vars == <<uses, name, table, todo, computed, result>>
Names == Stats

Init ==
  /\ uses \in [Metrics -> [Slots -> Stats]]
  /\ name \in [Stats -> Names]
  /\ Distinct => \A a, b \in Stats : name[a] = name[b] => a = b
  /\ table = [n \in Names |-> 0]
  /\ todo = Metrics \X Slots
  /\ computed = [n \in Names |-> 0]
  /\ result = [m \in Metrics |-> <<>>]
\* Register the statistic a metric needs (later registrations replace earlier).
Register(m, s) ==
  /\ <<m, s>> \in todo /\ todo' = todo \ {<<m, s>>}
  /\ table' = [table EXCEPT ![name[uses[m][s]]] = uses[m][s]]
  /\ UNCHANGED <<uses, name, computed, result>>
\* Compute one registered statistic on the data (once per name).
Compute(n) ==
  /\ todo = {} /\ table[n] # 0 /\ computed[n] = 0
  /\ computed' = [computed EXCEPT ![n] = table[n]]
  /\ UNCHANGED <<uses, name, table, todo, result>>
Ready(m) == todo = {} /\ \A s \in Slots : computed[name[uses[m][s]]] # 0
Finish(m) ==
  /\ Ready(m) /\ result[m] = <<>>
  /\ result' = [result EXCEPT ![m] = [s \in Slots |-> computed[name[uses[m][s]]]]]
  /\ UNCHANGED <<uses, name, table, todo, computed>>
Done == (\A m \in Metrics : result[m] # <<>>) /\ UNCHANGED vars
Next == (\E m \in Metrics, s \in Slots : Register(m, s)) \/ (\E n \in Names : Compute(n))
        \/ (\E m \in Metrics : Finish(m)) \/ Done
Spec == Init /\ [][Next]_vars

\* What each metric gets when evaluated alone: its own statistics.
JointIsAlone == \A m \in Metrics : result[m] # <<>> => result[m] = uses[m]
Emit == (todo = Metrics \X Slots /\ name = [s \in Stats |-> s]) =>
          PrintT("CASE " \o ToJson([uses |-> uses]))
=============================================================================
