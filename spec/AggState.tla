------------------------------ MODULE AggState ------------------------------
(* C02. Partial aggregation states live in registers; evaluation workers add  *)
(* them pairwise or in groups, in any order.  A state is either the empty     *)
(* ("zero") state or a partial map from labels to <<weighted sum, weight>>.    *)
EXTENDS LArr

Zero == [z |-> TRUE, f |-> <<>>]
St(f) == [z |-> FALSE, f |-> f]

\* Sum of a set of register indices of heap h: union of labels, missing = 0.
SumStates(h, R) ==
  LET nz == {r \in R : ~h[r].z}
  IN IF nz = {} THEN Zero
     ELSE LET D == UNION {DOMAIN h[r].f : r \in nz}
              at(r, x, k) == IF x \in DOMAIN h[r].f THEN h[r].f[x][k] ELSE 0
          IN St([x \in D |-> <<NSum(nz, LAMBDA r : at(r, x, 1)), NSum(nz, LAMBDA r : at(r, x, 2))>>])

CONSTANTS NReg, Labels
VARIABLES h0, h, live, hist
vars == <<h0, h, live, hist>>

Subsets == SUBSET Labels
\* Contributor i holds distinguishable numbers; poison marks one NaN entry.
Contribution(i, L, poison) ==
  St([x \in L |-> <<IF poison = i /\ x = 1 THEN NaN ELSE 100 * i + x, i>>])

Init ==
  \E L \in [1..NReg -> Subsets \cup {{0}}], poison \in 0..1 :
    /\ h0 = [i \in 1..NReg |-> IF L[i] = {0} THEN Zero ELSE Contribution(i, L[i], poison)]
    /\ h = h0
    /\ live = 1..NReg
    /\ hist = <<>>

\* a += b : result replaces a, b is retired (its content must not be needed again).
Add(a, b) ==
  /\ a \in live /\ b \in live /\ a # b
  /\ h' = [h EXCEPT ![a] = SumStates(h, {a, b})]
  /\ live' = live \ {b}
  /\ hist' = Append(hist, <<a, b>>)
  /\ UNCHANGED h0
\* one n-ary sum of everything left
SumAll ==
  /\ Cardinality(live) > 1
  /\ LET a == CHOOSE x \in live : \A y \in live : x <= y
     IN h' = [h EXCEPT ![a] = SumStates(h, live)] /\ live' = {a}
  /\ hist' = Append(hist, <<0, 0>>)
  /\ UNCHANGED h0
Next == (\E a, b \in 1..NReg : Add(a, b)) \/ SumAll
Spec == Init /\ [][Next]_vars

\* Nothing is lost and nothing invented, whatever the combine order.
Conservation == SumStates(h, live) = SumStates(h0, 1..NReg)
FinalIsTotal == Cardinality(live) = 1 => h[CHOOSE r \in live : TRUE] = SumStates(h0, 1..NReg)
ZeroIsIdentity == \A r \in live : SumStates([h EXCEPT ![r] = Zero], live) = SumStates(h, live \ {r})
UnionOfLabels ==
  Cardinality(live) = 1 /\ ~h[CHOOSE r \in live : TRUE].z
    => DOMAIN h[CHOOSE r \in live : TRUE].f = UNION {DOMAIN h0[r].f : r \in {x \in 1..NReg : ~h0[x].z}}
=============================================================================
