------------------------------ MODULE MCInfer ------------------------------
(* Experimental units arrive one at a time; each brings sums of weighted      *)
(* statistics and of weights for two parts.  Laws of the inference built on   *)
(* them, at every reachable collection of units.                              *)
EXTENDS TTest
CONSTANTS MaxN, Values, Weights, OrderFree

VARIABLES n1, n2, d
vars == <<n1, n2, d>>
Init == n1 = <<>> /\ n2 = <<>> /\ d = <<>>
Next == /\ Len(d) < MaxN
        /\ \E a \in Values, b \in Values, w \in Weights : n1' = Append(n1, a) /\ n2' = Append(n2, b + 1) /\ d' = Append(d, w)
Spec == Init /\ [][Next]_vars

N == Len(d)
Parts == <<[n |-> n1, d |-> d], [n |-> n2, d |-> d]>>
Kinds == {"mean", "rmse", "ratio", "dmean", "drmse", "rel"}
Ok(k) == N >= 2 /\ Smooth(k, Parts)
T(k) == Influence(k, Parts)

\* Influences have mean zero.
Centred == \A k \in Kinds : Ok(k) => Abs(Sum(T(k))) <= N * InfTol(k)
\* Which way counting a unit once more moves the value is the sign of its
\* influence.
Pushes == \A k \in {"mean", "rmse", "ratio", "rel"} : Ok(k) =>
            \A u \in 1..N :
              LET now == ValueAt(k, Parts, Ones(N)) more == ValueAt(k, Parts, [Ones(N) EXCEPT ![u] = 2])
              IN IsNum(now) /\ IsNum(more) => /\ (T(k)[u] > InfTol(k) => more >= now - 1)
                                              /\ (T(k)[u] < -InfTol(k) => more <= now + 1)
\* A comparison with the identical forecast has no uncertainty.
SelfCompare == Ok("dmean") => LET p == <<Parts[1], Parts[1]>> IN \A k \in {"dmean", "drmse"} : Smooth(k, p) => \A u \in 1..N : Influence(k, p)[u] = 0
\* The influence of a difference is the difference of influences; the two
\* comparisons with roles swapped are opposite.
Swapped == Ok("dmean") => LET q == <<Parts[2], Parts[1]>> IN \A u \in 1..N : Influence("dmean", q)[u] = -T("dmean")[u]
\* Constant units: no influence.
Const == (N >= 2 /\ \A u \in 1..N : n1[u] = n1[1] /\ d[u] = d[1]) => \A u \in 1..N : T("mean")[u] = 0
\* Multiplying all weights (and so weighted sums) changes nothing.
Double(v) == [u \in DOMAIN v |-> 2 * v[u]]
Unit == Ok("mean") => LET p == <<[n |-> Double(n1), d |-> Double(d)]>> IN Influence("mean", p) = T("mean")

\* Cosine estimator: all N - 1 frequencies give the ordinary variance, and
\* reading the units backwards changes no frequency's share.
Whole2 == Ok("mean") => LET t == T("mean") p == [j \in 1..(N - 1) |-> Proj(t, j)]
                        IN \A s \in {1} : Abs(2 * Sq2(p) - N * Sq2(t)) <= (N * N * AbsSum(t) * 4) + 400 * N
Rev(t) == [u \in DOMAIN t |-> t[Len(t) + 1 - u]]
Backwards == Ok("mean") => \A j \in 1..(N - 1) : Abs(Abs(Proj(Rev(T("mean")), j)) - Abs(Proj(T("mean"), j))) <= N + 1
\* (False: it does depend on the order of the units.)
Swap12(t) == IF Len(t) < 2 THEN t ELSE [t EXCEPT ![1] = t[2], ![2] = t[1]]
NoOrder == OrderFree => (Ok("mean") => \A j \in 1..1 : Abs(Abs(Proj(Swap12(T("mean")), j)) - Abs(Proj(T("mean"), j))) <= N + 1)

\* Inflation: none without correlation; more for positive than for negative
\* correlation at lag one.
ASSUME Inflate(0, 0) = 100
ASSUME \A r \in {1000, 2000, 4000, 5000} : Inflate(r, (r * r) \div 10000) > 100 /\ Inflate(-r, (r * r) \div 10000) < 100
\* First-order autoregression: k^2 = (1 + r) / (1 - r).
ASSUME \A r \in {1000, 2000, 3000, 4000, 5000} : Abs(Inflate(r, (r * r) \div 10000) - (100 * (10000 + r)) \div (10000 - r)) <= 3
\* Frequencies: within range, growing with the sample and with v_0.
ASSUME \A m \in 2..30, v \in 1..12 : /\ Freqs(m, v) \in 1..(m - 1)
                                     /\ Freqs(m, v) <= Freqs(m + 1, v) /\ Freqs(m, v) <= Freqs(m, v + 1)
MCValues == {0, 1, 5}
MCWeights == {1, 2}
=============================================================================
