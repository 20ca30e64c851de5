----------------------------- MODULE AtomicWrite -----------------------------
(* C10. Several writers publish to one path through a shared filesystem.      *)
(* Each writer: make the directory, create a temporary file, write it in      *)
(* pieces (a prefix is visible to anybody listing the directory), close it,   *)
(* move it over the destination.  Any step may fail (the writer then cleans   *)
(* up and reports failure) or the writer may be killed.                       *)
EXTENDS VLib, Json

CONSTANTS Writers, MaxFaults, MaxKills, EmitHist,
          SharedTmp,      \* negative control: writers use one temporary name
          DirectWrite,    \* negative control: no temporary file
          CleanMv         \* clean up when the final move fails
Absent == 0
Old == 99
Partial == 98

VARIABLES dest, had, tmp, pc, faults, kills, published, hist
vars == <<dest, had, tmp, pc, faults, kills, published, hist>>

T(w) == IF SharedTmp THEN CHOOSE x \in Writers : \A y \in Writers : x <= y ELSE w
NoFile == <<"none", 0>>
Next1(s) == CASE s = "mkdir" -> "open" [] s = "open" -> "w1" [] s = "w1" -> "w2"
              [] s = "w2" -> "close" [] s = "close" -> "mv" [] s = "mv" -> "ok"
Running(w) == pc[w] \notin {"ok", "err", "dead"}
Log(w, k) == hist' = IF EmitHist THEN Append(hist, <<w, k>>) ELSE hist

Init ==
  /\ dest \in {Absent, Old} /\ had = dest
  /\ tmp = [w \in Writers |-> NoFile]
  /\ pc = [w \in Writers |-> "mkdir"]
  /\ faults = 0 /\ kills = 0 /\ published = {} /\ hist = <<>>

Effect(w) ==
  CASE pc[w] = "open" /\ DirectWrite  -> dest' = Partial /\ tmp' = tmp /\ published' = published
    [] pc[w] = "w1" /\ DirectWrite    -> dest' = Partial /\ tmp' = tmp /\ published' = published
    [] pc[w] = "w2" /\ DirectWrite    -> dest' = w /\ tmp' = tmp /\ published' = published \cup {w}
    [] pc[w] = "open" /\ ~DirectWrite -> tmp' = [tmp EXCEPT ![T(w)] = <<"empty", w>>] /\ UNCHANGED <<dest, published>>
    [] pc[w] = "w1" /\ ~DirectWrite   -> tmp' = [tmp EXCEPT ![T(w)] = <<"half", w>>] /\ UNCHANGED <<dest, published>>
    [] pc[w] = "w2" /\ ~DirectWrite   -> tmp' = [tmp EXCEPT ![T(w)] = IF @[2] = w THEN <<"full", w>> ELSE <<"half", w>>]
                                         /\ UNCHANGED <<dest, published>>
    [] pc[w] = "mv" /\ ~DirectWrite   -> /\ dest' = IF tmp[T(w)][1] = "full" THEN tmp[T(w)][2] ELSE Partial
                                         /\ tmp' = [tmp EXCEPT ![T(w)] = NoFile]
                                         /\ published' = published \cup {w}
    [] OTHER -> UNCHANGED <<dest, tmp, published>>

Step(w) ==
  /\ Running(w) /\ pc[w] # "rm"
  /\ Effect(w)
  /\ pc' = [pc EXCEPT ![w] = Next1(@)]
  /\ Log(w, "go")
  /\ UNCHANGED <<had, faults, kills>>
\* The operation fails (a write may leave a prefix); the writer goes to clean up.
Fault(w) ==
  /\ Running(w) /\ pc[w] # "rm" /\ faults < MaxFaults
  /\ faults' = faults + 1
  /\ IF pc[w] \in {"w1", "w2"} /\ ~DirectWrite THEN tmp' = [tmp EXCEPT ![T(w)] = <<"half", w>>] ELSE tmp' = tmp
  /\ pc' = [pc EXCEPT ![w] = IF pc[w] = "mkdir" \/ (pc[w] = "mv" /\ ~CleanMv) THEN "err" ELSE "rm"]
  /\ Log(w, "fault")
  /\ UNCHANGED <<dest, had, kills, published>>
CleanUp(w) ==
  /\ pc[w] = "rm"
  /\ tmp' = [tmp EXCEPT ![T(w)] = NoFile]
  /\ pc' = [pc EXCEPT ![w] = "err"]
  /\ Log(w, "go")
  /\ UNCHANGED <<dest, had, faults, kills, published>>
Kill(w) ==
  /\ Running(w) /\ kills < MaxKills
  /\ kills' = kills + 1
  /\ pc' = [pc EXCEPT ![w] = "dead"]
  /\ Log(w, "kill")
  /\ UNCHANGED <<dest, had, tmp, faults, published>>

Finished == \A w \in Writers : ~Running(w)
Stop == Finished /\ UNCHANGED vars
Next == (\E w \in Writers : Step(w) \/ Fault(w) \/ CleanUp(w) \/ Kill(w)) \/ Stop
Spec == Init /\ [][Next]_vars

NeverPartial == dest # Partial
OnlyCompleteVersions == dest \in {had} \cup Writers
OkMeansPublished == \A w \in Writers : pc[w] = "ok" => w \in published
ErrKeepsOld == \A w \in Writers : pc[w] = "err" => w \notin published
NoTempLeft == \A w \in Writers : pc[w] \in {"ok", "err"} => tmp[w] = NoFile
FinalIsSomebody == Finished /\ published # {} => dest \in published
DestChangesAtomically == [][dest' # dest => \E w \in Writers : pc[w] = "mv" /\ dest' = w]_vars
Emit == (EmitHist /\ Finished) => PrintT("CASE " \o ToJson([had |-> IF had = Old THEN 1 ELSE 0, n |-> Cardinality(Writers), hist |-> hist]))
=============================================================================
