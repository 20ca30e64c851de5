------------------------------- MODULE Interp -------------------------------
(* Interpolation of labelled arrays.  Positions along a dimension are integer *)
(* units; an axis is the set of its positions (its storage order never        *)
(* matters).  Weights are integers over a common denominator.                 *)
EXTENDS LArr
CONSTANT Full          \* the full circle of longitudes, in position units

\* Result of looking one position up along one axis.
\*   st: "ok" (weights apply), "missing" (outside, not extrapolated),
\*       "free" (no prediction)
\*   w: position -> weight (non-zero), den: their sum, halo: positions a
\*      missing value at which may also be felt
Missing == [st |-> "missing", w |-> <<>>, den |-> 1, halo |-> {}]
Free == [st |-> "free", w |-> <<>>, den |-> 1, halo |-> {}]
Preds(X, t) == {x \in X : x < t}
Succs(X, t) == {x \in X : x > t}
Edge(S, hi) == IF S = {} THEN {} ELSE {IF hi THEN Max(S) ELSE Min(S)}
Between(a, b, t) == [st |-> "ok", w |-> (a :> (b - t) @@ b :> (t - a)), den |-> b - a, halo |-> {a, b}]
Linear(X, t, extrap) ==
  LET P == Preds(X, t)  S == Succs(X, t)
  IN IF t \in X
     THEN [st |-> "ok", w |-> (t :> 1), den |-> 1, halo |-> {t} \cup Edge(P, TRUE) \cup Edge(S, FALSE)]
     ELSE IF P # {} /\ S # {} THEN Between(Max(P), Min(S), t)
     ELSE IF ~extrap THEN Missing
     ELSE IF Cardinality(X) < 2 THEN Free
     ELSE IF P = {} THEN LET a == Min(X) IN Between(a, Min(X \ {a}), t)
     ELSE LET b == Max(X) IN Between(Max(X \ {b}), b, t)
\* Distance eastwards on the circle.
East(a, b) == (b - a) % Full
LinearWrap(X, t) ==
  LET same == {x \in X : East(x, t) = 0}
      lo == CHOOSE x \in X : \A y \in X : East(x, t) <= East(y, t)
      hi == CHOOSE x \in X : \A y \in X : East(t, x) <= East(t, y)
      gap == East(lo, t) + East(t, hi)
      others(x) == X \ {x}
      pred(x) == IF others(x) = {} THEN {} ELSE {CHOOSE y \in others(x) : \A z \in others(x) : East(y, x) <= East(z, x)}
      succ(x) == IF others(x) = {} THEN {} ELSE {CHOOSE y \in others(x) : \A z \in others(x) : East(x, y) <= East(x, z)}
  IN IF same # {}
     THEN LET x == CHOOSE x \in same : TRUE
          IN [st |-> "ok", w |-> (x :> 1), den |-> 1, halo |-> {x} \cup pred(x) \cup succ(x)]
     ELSE IF lo = hi THEN [st |-> "ok", w |-> (lo :> 1), den |-> 1, halo |-> {lo}]
     ELSE [st |-> "ok", w |-> (lo :> East(t, hi) @@ hi :> East(lo, t)), den |-> gap, halo |-> {lo, hi}]
\* Nearest: the set of admissible source positions (ties are free).
Closest(X, dist(_)) == LET m == Min({dist(x) : x \in X}) IN {x \in X : dist(x) = m}
Nearest(X, t, extrap) ==
  IF (t < Min(X) \/ t > Max(X)) /\ ~extrap THEN {} ELSE Closest(X, LAMBDA x : Abs(x - t))
NearestWrap(X, t) == Closest(X, LAMBDA x : MinI(East(x, t), East(t, x)))

\* All the one-position lookups along the dimensions ds at positions t[d]:
\* a set of functions d -> lookup (more than one for ties).
LookupSet(X, t, method, wrap, extrap) ==
  IF method = "linear" THEN {IF wrap THEN LinearWrap(X, t) ELSE Linear(X, t, extrap)}
  ELSE LET c == IF wrap THEN NearestWrap(X, t) ELSE Nearest(X, t, extrap)
       IN IF c = {} THEN {Missing}
          ELSE {[st |-> "ok", w |-> (x :> 1), den |-> 1, halo |-> {x}] : x \in c}

RECURSIVE Num(_, _, _, _)
Num(a, g, ds, L) ==
  IF ds = <<>> THEN ValAt(a, g)
  ELSE LET d == Head(ds)
       IN NSum(DOMAIN L[d].w, LAMBDA x : NMul(L[d].w[x], Num(a, [g EXCEPT ![d] = x], Tail(ds), L)))
RECURSIVE Den(_, _)
Den(ds, L) == IF ds = <<>> THEN 1 ELSE L[Head(ds)].den * Den(Tail(ds), L)
RECURSIVE Halo(_, _, _, _)
Halo(a, g, ds, L) ==
  IF ds = <<>> THEN ~IsNum(ValAt(a, g))
  ELSE \E x \in L[Head(ds)].halo : Halo(a, [g EXCEPT ![Head(ds)] = x], Tail(ds), L)

\* Does the observed value (scaled by S) agree with lookups L?
AgreesAt(obs, a, g, ds, L, S, tol) ==
  IF \E i \in DOMAIN ds : L[ds[i]].st = "free" THEN TRUE
  ELSE IF \E i \in DOMAIN ds : L[ds[i]].st = "missing" THEN obs = NaN
  ELSE \/ Agrees(obs, Num(a, g, ds, L), Den(ds, L), S, tol)
       \/ (obs = NaN /\ Halo(a, g, ds, L))

RECURSIVE AllLookups(_, _)
AllLookups(ds, sets) ==
  IF ds = <<>> THEN {<<>>}
  ELSE {(Head(ds) :> x) @@ f : x \in sets[Head(ds)], f \in AllLookups(Tail(ds), sets)}
=============================================================================
