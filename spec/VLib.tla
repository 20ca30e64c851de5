-------------------------------- MODULE VLib --------------------------------
(* Shared vocabulary of the weatherbenchX specifications: extended integers   *)
(* (observations are logged as integers at a known scale, with sentinels for  *)
(* NaN / infinities / not-representable), sums, rationals, labelled arrays.   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

NaN  == 2000000001
PInf == 2000000002
NInf == 2000000003
BadNum == 2000000004

IsNum(x) == x < 1900000001 /\ x > -1900000001
Abs(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

\* Sum of f over a finite set, f integer valued (no NaN).
SumOver(S, f(_)) == MapThenSumSet(f, S)

\* NaN-propagating sum over a set: NaN if any term is NaN.
NSum(S, f(_)) == IF \E x \in S : ~IsNum(f(x)) THEN NaN ELSE MapThenSumSet(f, S)
NAdd(a, b) == IF IsNum(a) /\ IsNum(b) THEN a + b ELSE NaN
NSub(a, b) == IF IsNum(a) /\ IsNum(b) THEN a - b ELSE NaN
NMul(a, b) == IF IsNum(a) /\ IsNum(b) THEN a * b ELSE NaN

\* Extended numbers: infinities count, opposite infinities and NaN give NaN.
XSum(S, f(_)) ==
  LET V == {f(x) : x \in S}
  IN IF NaN \in V \/ {PInf, NInf} \subseteq V THEN NaN
     ELSE IF PInf \in V THEN PInf
     ELSE IF NInf \in V THEN NInf
     ELSE IF BadNum \in V THEN BadNum
     ELSE MapThenSumSet(f, S)
XAdd(a, b) == XSum({1, 2}, LAMBDA i : IF i = 1 THEN a ELSE b)
\* Product with a positive factor.
XMulPos(a, w) == IF IsNum(a) THEN a * w ELSE a

SeqSum(s) == MapThenSumSet(LAMBDA i : s[i], DOMAIN s)
NSeqSum(s) == IF \E i \in DOMAIN s : ~IsNum(s[i]) THEN NaN ELSE SeqSum(s)

\* obs (logged at scale S, rounded) agrees with the rational num/den within tol
\* units in the last logged place.  den = 0 stands for an undefined quotient.
Agrees(obs, num, den, S, tol) ==
  IF ~IsNum(num) \/ den = 0 THEN obs = NaN
  ELSE /\ IsNum(obs)
       /\ LET d == Abs(den)
              m == IF den < 0 THEN -num ELSE num
              e == (m * S) \div d
          IN obs >= e - tol /\ obs <= e + 1 + tol

Near(obs, exp, tol) ==
  IF IsNum(exp) THEN IsNum(obs) /\ Abs(obs - exp) <= tol ELSE obs = exp

\* Clause helper: the set {name} when the clause fails.
Fail(name, holds) == IF holds THEN {} ELSE {name}

Tuples(n, S) == [1..n -> S]
SeqOfSet(S) == SetToSeq(S)
RangeOf(s) == {s[i] : i \in DOMAIN s}

\* Row-major position (1-based) of the index tuple ix (1-based) in an array of
\* the given shape.
RECURSIVE FlatIx(_, _)
FlatIx(shape, ix) ==
  IF Len(shape) = 0 THEN 1
  ELSE (FlatIx(SubSeq(shape, 1, Len(shape) - 1), SubSeq(ix, 1, Len(ix) - 1)) - 1)
         * shape[Len(shape)] + ix[Len(ix)]
RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE Head(s) * Prod(Tail(s))
=============================================================================
