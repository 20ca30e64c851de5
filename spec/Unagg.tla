------------------------------- MODULE Unagg -------------------------------
(* C14. Statistics stored without averaging.  Workers evaluate the time chunks *)
(* (in any order, some attempts lost), each result goes to the position of its *)
(* first times in the full axes; pieces are split and consolidated to storage  *)
(* chunks, which are written (perhaps more than once) in any order.            *)
EXTENDS VLib

CONSTANTS MaxN, MaxLost, Broken
VARIABLES ni, nl, ci, cl, zi, zl, pending, lost, pieces, unwritten, store, hist
vars == <<ni, nl, ci, cl, zi, zl, pending, lost, pieces, unwritten, store, hist>>
View == <<ni, nl, ci, cl, zi, zl, pending, lost, pieces, unwritten, store>>

Parts(n, c) == 1..((n + c - 1) \div c)
\* positions of the k-th block of size c on an axis of length n
Block(n, c, k) == {x \in 1..n : (x - 1) \div c = k - 1}
Chunks == Parts(ni, ci) \X Parts(nl, cl)
ZChunks == Parts(ni, zi) \X Parts(nl, zl)
Cells == (1..ni) \X (1..nl)
Of(c) == Block(ni, ci, c[1]) \X Block(nl, cl, c[2])
ZOf(z) == Block(ni, zi, z[1]) \X Block(nl, zl, z[2])

Init ==
  /\ ni \in 1..MaxN /\ nl \in 1..MaxN
  /\ ci \in 1..ni /\ cl \in 1..nl /\ zi \in 1..ni /\ zl \in 1..nl
  /\ pending = Chunks /\ lost = 0
  /\ pieces = [x \in Cells |-> {}]        \* what has arrived for each position
  /\ unwritten = ZChunks
  /\ store = [x \in Cells |-> <<>>]       \* <<>> or the pair whose value is there
  /\ hist = <<>>

\* Offset of the value of time pair x, evaluated in chunk c.  The broken design
\* takes the size of the chunk at hand for the size of all chunks.
Offset(n, s, k, x, size) == IF Broken THEN (k - 1) * size + (x - (k - 1) * s) ELSE x
Place(c, x) == <<Offset(ni, ci, c[1], x[1], Cardinality(Block(ni, ci, c[1]))),
                 Offset(nl, cl, c[2], x[2], Cardinality(Block(nl, cl, c[2])))>>
Process(c) ==
  /\ c \in pending /\ pending' = pending \ {c}
  /\ pieces' = [y \in Cells |-> pieces[y] \cup {x \in Of(c) : Place(c, x) = y}]
  /\ hist' = Append(hist, <<"process", c[1], c[2]>>)
  /\ UNCHANGED <<ni, nl, ci, cl, zi, zl, lost, unwritten, store>>
Lose(c) ==
  /\ c \in pending /\ lost < MaxLost /\ lost' = lost + 1
  /\ hist' = Append(hist, <<"lose", c[1], c[2]>>)
  /\ UNCHANGED <<ni, nl, ci, cl, zi, zl, pending, pieces, unwritten, store>>
\* A storage chunk is written when everything has been evaluated (grouping is
\* a barrier); a repeated write stores the same values again.
Write(z) ==
  /\ pending = {}
  /\ store' = [y \in Cells |-> IF y \in ZOf(z) /\ pieces[y] # {} THEN CHOOSE x \in pieces[y] : TRUE ELSE store[y]]
  /\ unwritten' = unwritten \ {z}
  /\ UNCHANGED <<ni, nl, ci, cl, zi, zl, pending, lost, pieces, hist>>
Next == (\E c \in Chunks : Process(c) \/ Lose(c)) \/ \E z \in ZChunks : Write(z)
Spec == Init /\ [][Next]_vars

\* Every position only ever holds the value of its own times.
OwnTimes == \A y \in Cells : store[y] \in {<<>>, y}
OncePerPosition == \A y \in Cells : Cardinality(pieces[y]) <= 1
Complete == pending = {} /\ unwritten = {} => \A y \in Cells : store[y] = y
=============================================================================
