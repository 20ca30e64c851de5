------------------------------ MODULE GridArea ------------------------------
(* Areas of latitude bands.  Latitudes are quarter degrees (-360..360), cell  *)
(* boundaries eighths of a degree (-720..720).  An axis is a sequence of      *)
(* distinct latitudes, strictly increasing or strictly decreasing.            *)
EXTENDS VLib, SinTable, Wide
Pole == 720
Increasing(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]
Decreasing(x) == \A i \in 1..(Len(x) - 1) : x[i] > x[i + 1]
Strict(x) == Increasing(x) \/ Decreasing(x)
\* Boundary between neighbours: half way.  The outermost cells are as far out
\* as they are in, but do not go over the pole.
Below(x, i) == LET n == Len(x)
                   S == {x[j] : j \in {k \in 1..n : x[k] < x[i]}}
                   T == {x[j] : j \in {k \in 1..n : x[k] > x[i]}}
               IN IF S # {} THEN x[i] + Max(S)
                  ELSE MaxI(-Pole, 2 * x[i] - (Min(T) - x[i]))
Above(x, i) == LET n == Len(x)
                   S == {x[j] : j \in {k \in 1..n : x[k] < x[i]}}
                   T == {x[j] : j \in {k \in 1..n : x[k] > x[i]}}
               IN IF T # {} THEN x[i] + Min(T)
                  ELSE MinI(Pole, 2 * x[i] + (x[i] - Max(S)))
\* Area of the band (up to 2 pi times the squared radius), in 1/SinScale.
Band(x, i) == Sin8(Above(x, i)) - Sin8(Below(x, i))
\* The same boundaries read off the neighbours on an ordered axis.
Lo(x, i) == LET s == IF x[1] < x[2] THEN -1 ELSE 1
                n == Len(x)
            IN IF i + s \in 1..n THEN x[i] + x[i + s]
               ELSE MaxI(-Pole, 2 * x[i] - Abs(x[i - s] - x[i]))
Hi(x, i) == LET s == IF x[1] < x[2] THEN 1 ELSE -1
                n == Len(x)
            IN IF i + s \in 1..n THEN x[i] + x[i + s]
               ELSE MinI(Pole, 2 * x[i] + Abs(x[i] - x[i - s]))
OrderedBands(x) == TLCEval([i \in DOMAIN x |-> Sin8(Hi(x, i)) - Sin8(Lo(x, i))])
Bands(x) == [i \in DOMAIN x |-> Band(x, i)]
BandTotal(x) == SeqSum(Bands(x))
=============================================================================
