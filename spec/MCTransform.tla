----------------------------- MODULE MCTransform -----------------------------
(* Chains of transforms on small arrays: laws that relate the transforms, and *)
(* every chain up to a length as a case for the implementation.               *)
EXTENDS Transform, Json
CONSTANTS MaxLen, Emit
VARIABLES arr, chain, now
vars == <<arr, chain, now>>

Vals == IF MaxLen = 1 THEN {-1, 1, NaN} ELSE {-1, 0, 2, NaN}
Array(f) == [dims |-> <<"number", "x">>, labels |-> <<<<1, 2>>, <<3, 5>>>>, data |-> f]
Arrays == {Array(f) : f \in [1..4 -> Vals]}
Given == Array(<<-1, 2, NaN, 3>>)

Thr(d, vs) == <<[var |-> "*", arr |-> [dims |-> <<d>>, labels |-> <<[i \in DOMAIN vs |-> IF vs[i] = NInf THEN -888888 ELSE IF vs[i] = PInf THEN 888888 ELSE vs[i]]>>, data |-> vs]]>>
Base(op) == [op |-> op, which |-> "both"]
Mean(d, skipna) == [op |-> "mean", which |-> "both", dim |-> d, skipna |-> skipna, skipmissing |-> TRUE]
Weib == [op |-> "weibull", which |-> "both", dim |-> "number", skipna |-> FALSE]
Binary(vs) == [op |-> "binary", which |-> "both", dim |-> "thr", form |-> "list", thr |-> Thr("thr", vs)]
CdfT(vs, closed) == [op |-> "cdf", which |-> "both", dim |-> "thr2", form |-> "list", thr |-> Thr("thr2", vs), closed |-> closed, enforce |-> TRUE]
BinsT(vs) == [op |-> "bins", which |-> "both", dim |-> "cat", form |-> "list", thr |-> Thr("cat", vs), closed |-> TRUE, enforce |-> TRUE]
ShiftT(vs) == [op |-> "shift", which |-> "both", dim |-> "shift", form |-> "list", thr |-> Thr("shift", vs)]
Ren(a, b) == [op |-> "rename", which |-> "both", pairs |-> <<<<a, b>>>>]
SelT(sel, isel) == [op |-> "select", which |-> "both", sel |-> sel, isel |-> isel]
By(d, how, v) == <<[dim |-> d, how |-> how, v |-> v]>>
StackT(ds, new) == [op |-> "stack", which |-> "both", dims |-> ds, new |-> new]
Menu == {Mean("number", FALSE), Mean("number", TRUE), Base("relu"), Base("negate"), Base("twiceplus1"),
         Binary(<<0, 2>>), CdfT(<<-1, 1>>, TRUE), CdfT(<<-1, 2>>, FALSE), BinsT(<<NInf, 0, 2, PInf>>), ShiftT(<<1>>),
         SelT(By("x", "label", <<5>>), <<>>), SelT(<<>>, By("x", "indices", <<1, 0>>)), StackT(<<"x", "number">>, "x")}
Once == {"binary", "bins", "shift", "stack", "cdf", "mean"}   \* at most once in a chain
May(t) == /\ t.op \in Once => \A i \in DOMAIN chain : chain[i].op # t.op
          /\ ~IsBad(Transformed(t, now, "v"))

Init == /\ arr \in IF Emit THEN {Given} ELSE Arrays
        /\ chain = <<>> /\ now = Fractions(arr)
Next == \E t \in Menu : /\ Len(chain) < MaxLen /\ May(t)
                        /\ chain' = Append(chain, t)
                        /\ now' = Transformed(t, now, "v")
                        /\ UNCHANGED arr
Spec == Init /\ [][Next]_vars

\* ---- invariants of every chain
Shape2 == WellFormed(now)
\* running the chain in one go is running it step by step
InOrder == Chained(chain, "predictions", Fractions(arr), "v") = now
\* transforms for one side do not reach the other
OneSided == Chained([i \in DOMAIN chain |-> [chain[i] EXCEPT !.which = "targets"]], "predictions", Fractions(arr), "v") = Fractions(arr)
\* nothing becomes known where everything it came from is missing
MissingStays == (\A k \in DOMAIN arr.data : arr.data[k] = NaN) => \A k \in DOMAIN now.data : now.data[k] = Miss

\* ---- laws relating transforms (checked on the initial arrays)
A0 == Fractions(arr)
Do(ts) == Chained(ts, "predictions", A0, "v")
NoneMissing == \A k \in DOMAIN arr.data : arr.data[k] # NaN
Same(a, b) == /\ DimSet(a) = DimSet(b) /\ \A d \in DimSet(a) : LabelSet(a, d) = LabelSet(b, d)
              /\ \A k \in 1..Size(a) : a.data[k] = ValAt(b, AsgAt(a, k))
Ts == <<-1, 0, 1>>
Laws == chain = <<>> =>
  \* open-ended bins hold every known value exactly once
  /\ LET b == Do(<<BinsT(<<NInf, -1, 0, 1, PInf>>)>>)
     IN \A k \in 1..Size(A0) :
          LET o == AsgAt(A0, k)
          IN IF ValAt(A0, o) = Miss THEN \A c \in LabelSet(b, "cat") : ValAt(b, o @@ ("cat" :> c)) = Miss
             ELSE Cardinality({c \in LabelSet(b, "cat") : ValAt(b, o @@ ("cat" :> c)) = <<1, 1>>}) = 1
  \* exceeding is the complement of not exceeding
  /\ LET x == Do(<<Binary(Ts)>>)  y == Do(<<CdfT(Ts, TRUE)>>)  z == Do(<<CdfT(Ts, FALSE)>>)
     IN \A k \in 1..Size(A0) : \A i \in 1..3 :
          LET o == AsgAt(A0, k)  v == ValAt(A0, o)
              at(a, d) == ValAt(a, o @@ (d :> Ts[i]))
          IN IF v = Miss THEN at(x, "thr") = Miss /\ at(y, "thr2") = Miss /\ at(z, "thr2") = Miss
             ELSE /\ RAdd(at(x, "thr"), at(y, "thr2")) = <<1, 1>>
                  /\ (at(y, "thr2") # at(z, "thr2")) = (v = Quarter4(Ts[i]))
  \* mean over stacked dimensions is the mean of means when nothing is missing
  /\ NoneMissing => Same(Do(<<StackT(<<"x", "number">>, "all"), Mean("all", FALSE)>>), Do(<<Mean("x", FALSE), Mean("number", FALSE)>>))
  /\ Same(Do(<<Ren("number", "member"), Ren("member", "number")>>), A0)
  /\ Same(Do(<<Ren("number", "member"), Mean("member", TRUE)>>), Do(<<Mean("number", TRUE)>>))
  /\ Same(Do(<<SelT(By("x", "label", <<5>>), <<>>), Mean("number", TRUE)>>), Do(<<Mean("number", TRUE), SelT(By("x", "label", <<5>>), <<>>)>>))
  /\ Same(Do(<<SelT(By("x", "label", <<5>>), <<>>)>>), Do(<<SelT(<<>>, By("x", "index", <<1>>))>>))
  /\ Same(Do(<<SelT(<<>>, By("x", "index", <<1>>))>>), Do(<<SelT(<<>>, By("x", "index", <<-1>>))>>))
  /\ Same(Do(<<Base("negate"), Base("negate")>>), A0)
  /\ Same(Do(<<Base("relu"), Base("relu")>>), Do(<<Base("relu")>>))
  \* shifting up is lowering the threshold
  /\ LET x == Do(<<ShiftT(<<1>>), Binary(<<0>>)>>)  y == Do(<<Binary(<<-1>>)>>)
     IN \A k \in 1..Size(A0) : ValAt(x, AsgAt(A0, k) @@ [thr |-> 0, shift |-> 1]) = ValAt(y, AsgAt(A0, k) @@ [thr |-> -1])
  \* plotting positions are means scaled by n / (n + 1)
  /\ LET w == Do(<<Weib>>)  m == Do(<<Mean("number", FALSE)>>)
     IN \A k \in 1..Size(w) : w.data[k] = IF m.data[k] = Miss THEN Miss ELSE Rat(m.data[k][1] * 2, m.data[k][2] * 3)
\* false: averaging events is not the event of the average
OrderIrrelevant == chain = <<>> => Same(Do(<<Mean("number", FALSE), Binary(<<0>>)>>), Do(<<Binary(<<0>>), Mean("number", FALSE)>>))

EmitCase == (Emit /\ Len(chain) > 0) =>
  PrintT("CASE " \o ToJson([vars |-> <<[name |-> "v", p |-> arr, t |-> arr, pm |-> <<>>, tm |-> <<>>]>>, chain |-> chain]))
==============================================================================
