------------------------------- MODULE Labels -------------------------------
(* C13. Bins over labels: which bins an element belongs to depends on its own *)
(* label only.  Elements are processed chunk by chunk; per-bin totals of the  *)
(* chunks are added (a chunk knows only the bins its own elements need).      *)
EXTENDS VLib, Calendar
Global == 777777
\* Bins of a label under each scheme.
ExactBins(x) == {<<"is", x>>}
SetBins(x, sets) == {<<"in", k>> : k \in {j \in DOMAIN sets : x \in sets[j]}}
ComplementBins(x, sets) == {<<"out", k>> : k \in {j \in DOMAIN sets : x \notin sets[j]}}
=============================================================================
