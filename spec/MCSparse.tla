------------------------------- MODULE MCSparse ------------------------------
(* Observations filed by nominal time, whose own time may differ from it by   *)
(* at most Tol.  A reader opens only the partitions near the window, one      *)
(* after another; windows that tile the axis return every observation once.   *)
EXTENDS Sparse, Json
CONSTANTS T, U, Tol, Width
VARIABLES obs, win, cursor, got, phase
vars == <<obs, win, cursor, got, phase>>
Obs == [t : 0..T, nominal : 0..T]
WellFiled(o) == Abs(o.t - o.nominal) <= Tol
\* Windows [k*Width, (k+1)*Width), read one after another.
Win(k) == [lo |-> k * Width, hi |-> (k + 1) * Width, incl |-> FALSE]
LastWin == T \div Width
Init == /\ obs \in [1..2 -> {o \in Obs : WellFiled(o)}]
        /\ win = 0 /\ cursor = Part(0 - Tol, U) /\ got = <<>> /\ phase = "read"
ReadPartition ==
  /\ phase = "read"
  /\ LET w == Win(win) ps == PartsRead(w, Tol, U)
         hits == {k \in 1..2 : Part(obs[k].nominal, U) = cursor /\ InWindow(w, obs[k].t)}
     IN /\ got' = got \o SetToSeq({<<win, k>> : k \in hits})
        /\ IF cursor < Max(ps) THEN cursor' = cursor + 1 /\ UNCHANGED <<win, phase>>
           ELSE IF win < LastWin THEN win' = win + 1 /\ cursor' = Part((win + 1) * Width - Tol, U) /\ UNCHANGED phase
           ELSE phase' = "done" /\ UNCHANGED <<win, cursor>>
  /\ UNCHANGED obs
Next == ReadPartition \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
ExactlyOnce == phase = "done" => \A k \in 1..2 : Cardinality({i \in DOMAIN got : got[i][2] = k}) = 1
OwnWindow == \A i \in DOMAIN got : InWindow(Win(got[i][1]), obs[got[i][2]].t)
Emit == (cursor = Part(0 - Tol, U) /\ win = 0 /\ got = <<>> /\ phase = "read") => PrintT("CASE " \o ToJson([t |-> <<obs[1].t, obs[2].t>>, nominal |-> <<obs[1].nominal, obs[2].nominal>>]))
=============================================================================
