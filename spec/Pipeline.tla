------------------------------ MODULE Pipeline ------------------------------
(* C01. The distributed evaluation: chunks of the init x lead grid are        *)
(* evaluated by workers (possibly twice when a worker is lost), emit one      *)
(* partial per kept-coordinate key, and partials are combined through         *)
(* accumulators created, fed and merged in any order before the final         *)
(* concatenation.  A partial is abstracted to the bag of chunks it counts.    *)
EXTENDS VLib

CONSTANTS NI, NL, MaxAcc, MaxLost
Chunks == (1..NI) \X (1..NL)
NoChunk == [c \in Chunks |-> 0]
One(c) == [x \in Chunks |-> IF x = c THEN 1 ELSE 0]
CntAdd(a, b) == [c \in Chunks |-> a[c] + b[c]]

VARIABLES keepI, keepL, pending, lost, inputs, accs, created, out, hist
vars == <<keepI, keepL, pending, lost, inputs, accs, created, out, hist>>
View == <<keepI, keepL, pending, lost, inputs, accs, created, out>>

Key(c) == <<IF keepI THEN c[1] ELSE 0, IF keepL THEN c[2] ELSE 0>>
Keys == {Key(c) : c \in Chunks}

Init ==
  /\ keepI \in BOOLEAN /\ keepL \in BOOLEAN
  /\ pending = Chunks /\ lost = 0
  /\ inputs = [k \in Keys |-> <<>>]      \* arrived, not yet combined
  /\ accs = [k \in Keys |-> <<>>]        \* live accumulators
  /\ created = [k \in Keys |-> 0]
  /\ out = [k \in {} |-> 0]
  /\ hist = <<>>

Log(e) == hist' = Append(hist, e)

\* A worker evaluates chunk c; its outputs are committed.
Process(c) ==
  /\ c \in pending /\ pending' = pending \ {c}
  /\ inputs' = [inputs EXCEPT ![Key(c)] = Append(@, One(c))]
  /\ Log([a |-> "process", c |-> c])
  /\ UNCHANGED <<keepI, keepL, lost, accs, created, out>>
\* A worker evaluates chunk c but dies before committing: outputs discarded.
Lose(c) ==
  /\ c \in pending /\ lost < MaxLost /\ lost' = lost + 1
  /\ Log([a |-> "lose", c |-> c])
  /\ UNCHANGED <<keepI, keepL, pending, inputs, accs, created, out>>
NewAcc(k) ==
  /\ DOMAIN out = {} /\ created[k] < MaxAcc
  /\ created' = [created EXCEPT ![k] = @ + 1]
  /\ accs' = [accs EXCEPT ![k] = Append(@, NoChunk)]
  /\ Log([a |-> "new", k |-> k])
  /\ UNCHANGED <<keepI, keepL, pending, lost, inputs, out>>
\* Feed the n-th waiting input into accumulator i.
AddInput(k, i, n) ==
  /\ i \in DOMAIN accs[k] /\ n \in DOMAIN inputs[k]
  /\ accs' = [accs EXCEPT ![k][i] = CntAdd(@, inputs[k][n])]
  /\ inputs' = [inputs EXCEPT ![k] = RemoveAt(@, n)]
  /\ Log([a |-> "add", k |-> k, i |-> i, n |-> n])
  /\ UNCHANGED <<keepI, keepL, pending, lost, created, out>>
\* Merge accumulator j into i.
Merge(k, i, j) ==
  /\ i \in DOMAIN accs[k] /\ j \in DOMAIN accs[k] /\ i # j
  /\ accs' = [accs EXCEPT ![k] = RemoveAt([@ EXCEPT ![i] = CntAdd(accs[k][i], accs[k][j])], j)]
  /\ Log([a |-> "merge", k |-> k, i |-> i, j |-> j])
  /\ UNCHANGED <<keepI, keepL, pending, lost, inputs, created, out>>
\* Everything arrived and was combined: publish under the kept coordinates.
Extract ==
  /\ pending = {} /\ DOMAIN out = {}
  /\ \A k \in Keys : inputs[k] = <<>> /\ Len(accs[k]) = 1
  /\ out' = [k \in Keys |-> accs[k][1]]
  /\ Log([a |-> "extract"])
  /\ UNCHANGED <<keepI, keepL, pending, lost, inputs, accs, created>>

Next ==
  \/ \E c \in Chunks : Process(c) \/ Lose(c)
  \/ \E k \in Keys : NewAcc(k)
  \/ \E k \in Keys : \E i \in 1..MaxAcc : \E n \in 1..(NI * NL) : AddInput(k, i, n)
  \/ \E k \in Keys : \E i, j \in 1..MaxAcc : Merge(k, i, j)
  \/ Extract
Spec == Init /\ [][Next]_vars

CntUnion(s) == [c \in Chunks |-> SumOver(DOMAIN s, LAMBDA i : s[i][c])]
InFlight(k) == CntAdd(CntUnion(inputs[k]), CntUnion(accs[k]))
\* At every moment each evaluated chunk is counted exactly once under its own
\* key, and unevaluated (or lost) ones nowhere.
Conservation == \A c \in Chunks, k \in Keys :
  InFlight(k)[c] = IF c \notin pending /\ k = Key(c) THEN 1 ELSE 0
\* The published result counts every chunk once, under its own coordinate only.
Published == DOMAIN out # {} => \A c \in Chunks : \A k \in DOMAIN out :
  out[k][c] = IF k = Key(c) THEN 1 ELSE 0
=============================================================================
