------------------------------ MODULE MCLabels ------------------------------
EXTENDS Labels, Json
CONSTANTS N, LabelDom, Scheme
VARIABLES lab, set, chunk, total, cur, pending
vars == <<lab, set, chunk, total, cur, pending>>
BinsOf(x) ==
  {<<"global", 0>>} \cup
  (IF Scheme = "exact" THEN ExactBins(x) ELSE SetBins(x, <<set>>) \cup ComplementBins(x, <<set>>))
Init == /\ lab \in [1..N -> LabelDom] /\ set \in SUBSET LabelDom
        /\ chunk \in [1..N -> 1..2]
        /\ total = <<>> /\ cur = 1 /\ pending = {1, 2}
\* Bins a chunk knows of, and its totals (element i is worth 2^(i-1)).
Elems(c) == {i \in 1..N : chunk[i] = c}
Known(c) == UNION {BinsOf(lab[i]) : i \in Elems(c)}
ChunkTotal(c) == [b \in Known(c) |-> MapThenSumSet(LAMBDA i : 2^(i - 1), {i \in Elems(c) : b \in BinsOf(lab[i])})]
Merge(f, g) == [b \in DOMAIN f \cup DOMAIN g |-> (IF b \in DOMAIN f THEN f[b] ELSE 0) + (IF b \in DOMAIN g THEN g[b] ELSE 0)]
Process(c) == /\ c \in pending /\ pending' = pending \ {c}
              /\ total' = Merge(total, ChunkTotal(c))
              /\ UNCHANGED <<lab, set, chunk, cur>>
Done == pending = {} /\ UNCHANGED vars
Next == (\E c \in 1..2 : Process(c)) \/ Done
Spec == Init /\ [][Next]_vars
Everything == 2^N - 1
Finished == pending = {}
\* The bins name exactly the labels present, each with all its own elements.
WholeEqualsChunks == Finished => total = [b \in UNION {BinsOf(lab[i]) : i \in 1..N} |->
      MapThenSumSet(LAMBDA i : 2^(i - 1), {i \in 1..N : b \in BinsOf(lab[i])})]
GlobalHasAll == Finished => total[<<"global", 0>>] = Everything
PartOf(tag) == {b \in DOMAIN total : b[1] \in tag}
Partition == Finished =>
   MapThenSumSet(LAMBDA b : total[b], PartOf(IF Scheme = "exact" THEN {"is"} ELSE {"in", "out"})) = Everything
Emit == (pending = {1, 2}) => PrintT("CASE " \o ToJson([lab |-> lab, set |-> SetToSeq(set), chunk |-> chunk, scheme |-> Scheme]))
=============================================================================
