-------------------------------- MODULE LArr --------------------------------
(* Labelled arrays as logged by the drivers:                                  *)
(*   a = [dims |-> <<"x","y">>, labels |-> <<<<1,2>>,<<7>>>>, data |-> <<..>>]  *)
(* (row-major).  Labels are small integers standing for coordinate values.    *)
EXTENDS VLib

Shape(a) == [i \in DOMAIN a.dims |-> Len(a.labels[i])]
DimSet(a) == RangeOf(a.dims)
Size(a) == Prod(Shape(a))
WellFormed(a) ==
  /\ Len(a.labels) = Len(a.dims)
  /\ Cardinality(DimSet(a)) = Len(a.dims)
  /\ \A i \in DOMAIN a.labels : Cardinality(RangeOf(a.labels[i])) = Len(a.labels[i])
  /\ Len(a.data) = Size(a)

\* Axis number of dimension d, labels along d.
Axis(a, d) == CHOOSE i \in DOMAIN a.dims : a.dims[i] = d
LabelsOf(a, d) == a.labels[Axis(a, d)]
LabelSet(a, d) == RangeOf(LabelsOf(a, d))

RECURSIVE StrideFrom(_, _)
StrideFrom(shape, i) == IF i > Len(shape) THEN 1 ELSE shape[i] * StrideFrom(shape, i + 1)
Stride(shape, i) == StrideFrom(shape, i + 1)

\* The assignment (dimension -> label) of the k-th element (1-based).
AsgAt(a, k) ==
  LET sh == Shape(a)
  IN [d \in DimSet(a) |->
        LET i == Axis(a, d) IN a.labels[i][(((k - 1) \div Stride(sh, i)) % sh[i]) + 1]]
Asgs(a) == {AsgAt(a, k) : k \in 1..Size(a)}

\* Does a have an element for (the restriction of) assignment g?
HasAt(a, g) == \A d \in DimSet(a) : g[d] \in LabelSet(a, d)
PosOf(a, i, lab) == CHOOSE k \in DOMAIN a.labels[i] : a.labels[i][k] = lab
\* Element at assignment g; dimensions of g that a lacks are broadcast over.
ValAt(a, g) ==
  LET sh == Shape(a)
  IN a.data[1 + MapThenSumSet(LAMBDA i : (PosOf(a, i, g[a.dims[i]]) - 1) * Stride(sh, i), DOMAIN a.dims)]

\* Same labels along each dimension (as sets) and dims as a set.
SameFrame(a, b) ==
  /\ DimSet(a) = DimSet(b)
  /\ \A d \in DimSet(a) : LabelSet(a, d) = LabelSet(b, d)
SameArr(a, b) ==
  /\ WellFormed(a) /\ WellFormed(b) /\ SameFrame(a, b)
  /\ \A k \in 1..Size(a) : a.data[k] = ValAt(b, AsgAt(a, k))

\* All assignments of a frame given as a function dim -> set of labels.
RECURSIVE FrameAsgs(_, _)
FrameAsgs(ds, lab) ==
  IF ds = {} THEN {<<>>}
  ELSE LET d == CHOOSE x \in ds : TRUE
       IN {[x \in ds |-> IF x = d THEN v ELSE g[x]] : v \in lab[d], g \in FrameAsgs(ds \ {d}, lab)}

\* a holds exactly the values f(g) over the frame (ds, lab).
HoldsFn(a, ds, lab, f(_)) ==
  /\ WellFormed(a)
  /\ DimSet(a) = ds
  /\ \A d \in ds : LabelSet(a, d) = lab[d]
  /\ \A k \in 1..Size(a) : a.data[k] = f(AsgAt(a, k))
=============================================================================
