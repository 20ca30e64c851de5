----------------------------- MODULE TimeChunks -----------------------------
(* C06. The request axes (ni initialisation times, nl lead times or one lead  *)
(* interval) are walked initialisation-major in chunks.  The state machine is *)
(* the iterator; the properties are stated on everything it has emitted.      *)
EXTENDS VLib

CONSTANTS MaxN, MaxC

\* A configuration. interval: leads are one indivisible interval (nl = 1).
\* Chunk size 0 stands for "one chunk".
Configs == [ni : 1..MaxN, nl : 1..MaxN, ci : 0..MaxC, cl : 0..MaxC, interval : {FALSE}]
           \cup [ni : 1..MaxN, nl : {1}, ci : 0..MaxC, cl : {0}, interval : {TRUE}]

Size(n, c) == IF c = 0 THEN n ELSE c
NumChunks(n, c) == (n + Size(n, c) - 1) \div Size(n, c)
\* The k-th chunk (0-based) of an axis, as the sequence of its positions.
AxisChunk(n, c, k) ==
  LET lo == k * Size(n, c)
      hi == MinI(n, lo + Size(n, c))
  IN [j \in 1..(hi - lo) |-> lo + j]
Total(g) == NumChunks(g.ni, g.ci) * NumChunks(g.nl, g.cl)
InitOf(g, k) == k \div NumChunks(g.nl, g.cl)
LeadOf(g, k) == k % NumChunks(g.nl, g.cl)
ChunkAt(g, k) == <<AxisChunk(g.ni, g.ci, InitOf(g, k)), AxisChunk(g.nl, g.cl, LeadOf(g, k))>>
OffsetAt(g, k) == <<InitOf(g, k) * Size(g.ni, g.ci), LeadOf(g, k) * Size(g.nl, g.cl)>>

VARIABLES cfg, emitted, done
vars == <<cfg, emitted, done>>

Init == cfg \in Configs /\ emitted = <<>> /\ done = FALSE
Emit == /\ ~done
        /\ Len(emitted) < Total(cfg)
        /\ emitted' = Append(emitted, ChunkAt(cfg, Len(emitted)))
        /\ UNCHANGED <<cfg, done>>
Stop == /\ ~done /\ Len(emitted) = Total(cfg) /\ done' = TRUE /\ UNCHANGED <<cfg, emitted>>
Next == Emit \/ Stop
Spec == Init /\ [][Next]_vars

Pairs(c) == {<<c[1][i], c[2][j]>> : i \in DOMAIN c[1], j \in DOMAIN c[2]}
All == (1..cfg.ni) \X (1..cfg.nl)

NoPairTwice ==
  \A a, b \in DOMAIN emitted : a # b => Pairs(emitted[a]) \cap Pairs(emitted[b]) = {}
CoverWhenDone == done => UNION {Pairs(emitted[k]) : k \in DOMAIN emitted} = All
BoundedChunks ==
  \A k \in DOMAIN emitted :
    /\ Len(emitted[k][1]) >= 1 /\ Len(emitted[k][2]) >= 1
    /\ Len(emitted[k][1]) <= Size(cfg.ni, cfg.ci) /\ Len(emitted[k][2]) <= Size(cfg.nl, cfg.cl)
    /\ Len(emitted[k][1]) < Size(cfg.ni, cfg.ci) => Last(emitted[k][1]) = cfg.ni
    /\ Len(emitted[k][2]) < Size(cfg.nl, cfg.cl) => Last(emitted[k][2]) = cfg.nl
OffsetsAreFirstPositions ==
  \A k \in DOMAIN emitted :
    OffsetAt(cfg, k - 1) = <<emitted[k][1][1] - 1, emitted[k][2][1] - 1>>
\* Initialisation-major order: concatenating chunk starts is lexicographically increasing.
Ordered ==
  \A a, b \in DOMAIN emitted : a < b =>
    \/ emitted[a][1][1] < emitted[b][1][1]
    \/ emitted[a][1] = emitted[b][1] /\ emitted[a][2][1] < emitted[b][2][1]
=============================================================================
