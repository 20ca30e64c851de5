------------------------------- MODULE TTest -------------------------------
(* C21. Analytic inference for a function of means: influence of each unit    *)
(* (the linearised function at the means), variance estimators, t intervals.  *)
(* Influences are in 1/100.                                                   *)
EXTENDS Infer, TTable, SinTable

Sum(v) == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, v, DOMAIN v)
\* Influence of unit u on a weighted mean: N (W s_u - M w_u) / W^2.
MeanInf(n, d) == LET M == Sum(n) W == Sum(d) N == Len(n)
                 IN [u \in DOMAIN n |-> (100 * N * (W * n[u] - M * d[u])) \div (W * W)]
\* ... on its square root.
RootInf(n, d) == LET t == MeanInf(n, d) r == ISqrt((1000000 * Sum(n)) \div Sum(d)) IN [u \in DOMAIN n |-> (500 * t[u]) \div r]
\* ... on the ratio of two means.
RatioInf(p) == LET ta == MeanInf(p[1].n, p[1].d) tb == MeanInf(p[2].n, p[2].d)
                   na == Sum(p[1].n) da == Sum(p[1].d) nb == Sum(p[2].n) db == Sum(p[2].d)
               IN [u \in DOMAIN ta |-> ((ta[u] - (tb[u] * na * db) \div (da * nb)) * db) \div nb]
Minus(s, t) == [u \in DOMAIN s |-> s[u] - t[u]]
Influence(kind, p) ==
  CASE kind = "mean"  -> MeanInf(p[1].n, p[1].d)
    [] kind = "rmse"  -> RootInf(p[1].n, p[1].d)
    [] kind = "dmean" -> Minus(MeanInf(p[1].n, p[1].d), MeanInf(p[2].n, p[2].d))
    [] kind = "drmse" -> Minus(RootInf(p[1].n, p[1].d), RootInf(p[2].n, p[2].d))
    [] kind \in {"ratio", "rel"} -> RatioInf(p)
InfTol(kind) == IF kind \in {"ratio", "rel"} THEN 16 ELSE IF kind \in {"rmse", "drmse"} THEN 12 ELSE 4
\* Where these are defined.
Whole(p) == \A i \in DOMAIN p : \A u \in DOMAIN p[i].n : IsNum(p[i].n[u]) /\ IsNum(p[i].d[u])
Smooth(kind, p) == /\ \A i \in DOMAIN p : Sum(p[i].d) > 0
                   /\ kind \in {"rmse", "drmse"} => \A i \in DOMAIN p : Sum(p[i].n) > 0
                   /\ kind \in {"ratio", "rel"} => Sum(p[2].n) > 0

Sq2(t) == Sum([u \in DOMAIN t |-> t[u] * t[u]])
AbsSum(t) == Sum([u \in DOMAIN t |-> Abs(t[u])])
Lag(t, k) == Sum([u \in 1..(Len(t) - k) |-> t[u] * t[u + k]])
\* Small enough to be squared here (the data are).
Fits(se, c) == IsNum(se) /\ se >= 0 /\ se <= 46000 /\ se * se <= 1500000000 \div c
Moderate(t) == (\A u \in DOMAIN t : Abs(t[u]) <= 8000) /\ Sq2(t) <= 30000000
\* se (in 1/100) squared times N (N - 1) against the sum of squares.
IidSe(t, se, tol) == LET N == Len(t) IN Fits(se, N * (N - 1)) /\ Abs(Sq2(t) - se * se * N * (N - 1)) <= 2 * tol * AbsSum(t) + N * tol * tol + (2 * Abs(se) + 1) * N * (N - 1)

\* Inflation for serial correlation of second order, from the correlations at
\* lags one and two (10000ths); open where it is ill conditioned.
Rho(t, k) == LET c == Sq2(t) \div 1000 N == Len(t) IN (((10 * Lag(t, k)) \div (N - k)) * (N - 1)) \div c
Inflate(r1, r2) ==
  LET dn == (100000000 - r1 * r1) \div 10000
  IN IF Abs(dn) < 5000 THEN BadNum
     ELSE LET f1 == (r1 * (10000 - r2)) \div dn
              f2 == (10000 * r2 - r1 * r1) \div dn
              top == 10000 - (r1 * f1) \div 10000 - (r2 * f2) \div 10000
              bot == 10000 - f1 - f2
          IN IF Abs(f1) > 40000 \/ Abs(f2) > 40000 \/ Abs(bot) < 5000 \/ Abs(top) < 3000 THEN BadNum
             ELSE IF top < 0 THEN NaN ELSE (top * 10000) \div ((bot * bot) \div 100)      \* k^2 in 1/100
Ar2Se(t, se) ==
  LET N == Len(t) c == Sq2(t)
  IN IF c = 0 THEN se = 0
     ELSE IF c < 200000 THEN TRUE
     ELSE LET k == Inflate(Rho(t, 1), Rho(t, 2))
          IN IF k = BadNum \/ k > 1500 THEN TRUE
             ELSE IF k = NaN THEN se = NaN
             ELSE Fits(se, N * (N - 1)) /\ LET want == (c \div 100) * k got == se * se * N * (N - 1)
                               IN Abs(got - want) <= want \div 8 + (2 * se + 1) * N * (N - 1) + 20000

\* Cosine estimator: mean square of the first v cosine coefficients.
Cos8(a) == LET b == a % 2880 IN IF b <= 1440 THEN Sin8(720 - b) ELSE Sin8(b - 2160)
Proj(t, j) == LET N == Len(t) IN Sum([u \in 1..N |-> t[u] * (Cos8((720 * j * (2 * u - 1)) \div N) \div 50000)]) \div 10000
\* v_0 in tenths; the whole part of v_0 N^(2/3), between 1 and N - 1.
Freqs(N, v0) == LET S == {k \in 0..100 : 1000 * k * k * k <= v0 * v0 * v0 * N * N} IN MinI(MaxI(1, Max(S)), N - 1)
FreqsOpen(N, v0) == \E k \in 0..100 : 1000 * k * k * k = v0 * v0 * v0 * N * N
EwcSe(t, se, v, tol) ==
  LET N == Len(t) p == [j \in 1..v |-> Proj(t, j)]
      ss == Sq2(p)
  IN Fits(se, N * N * v) /\ Abs(2 * ss - se * se * N * N * v) <= 4 * (tol * N + 4) * AbsSum(p) + 4 * (tol * N + 4) * (tol * N + 4) * v + (2 * Abs(se) + 1) * N * N * v
=============================================================================
