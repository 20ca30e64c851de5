------------------------------- MODULE Sparse --------------------------------
(* C09. Selecting observations for a request.  Times in minutes.             *)
EXTENDS VLib
\* Window of an (init, lead) pair: [lo, hi], hi included or not.
InWindow(w, t) == t >= w.lo /\ (t < w.hi \/ (t = w.hi /\ w.incl))
ExactWindow(v) == [lo |-> v, hi |-> v, incl |-> TRUE]
\* Partition of a time, partitions read for a window.
Part(t, u) == t \div u
PartsRead(w, tol, u) == Part(w.lo - tol, u)..Part(w.hi + tol, u)
=============================================================================
