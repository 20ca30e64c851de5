------------------------------ MODULE MCSpatial ------------------------------
(* A point walks around the globe step by step while a box is fixed; an       *)
(* independent, walk-based notion of "between west and east" is compared with *)
(* the closed form, with the laws the property states.                        *)
EXTENDS Spatial, Json
CONSTANTS LimMax
Lims == (-Full)..LimMax
VARIABLES w, e, lon, walking, inside, visited
vars == <<w, e, lon, walking, inside, visited>>
\* Walk eastwards from the western limit; inside until the eastern limit has
\* been passed.
Init == /\ w \in Lims /\ e \in Lims
        /\ lon = w /\ walking = TRUE /\ inside = TRUE /\ visited = {w % Full}
Step == /\ walking /\ Cardinality(visited) < Full
        /\ lon' = lon + 1
        /\ visited' = visited \cup {(lon + 1) % Full}
        /\ inside' = (inside /\ (lon % Full # e % Full \/ (lon = w /\ w % Full = e % Full)))
        /\ UNCHANGED <<w, e, walking>>
Stop == (~walking \/ Cardinality(visited) = Full) /\ UNCHANGED vars
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
WalkAgrees == InArc(lon, w, e) = inside
Convention == \A k \in {-1, 1} : /\ InArc(lon + k * Full, w, e) = InArc(lon, w, e)
                                 /\ InArc(lon, w + k * Full, e) = InArc(lon, w, e)
                                 /\ InArc(lon, w, e + k * Full) = InArc(lon, w, e)
LimitsInside == InArc(w, w, e) /\ InArc(e, w, e)
ComplementCovers == InArc(lon, w, e) \/ InArc(lon, e, w)
Rotation == \A k \in 1..(Full - 1) : InArc(lon + k, w + k, e + k) = InArc(lon, w, e)
StartsCover == \A width \in 1..3 : \A x \in 0..(Full - 1) :
   Cardinality({s \in Starts(0, Full, width) : InHalfOpen(x, s, s + width)}) = 1
Emit == (lon = w) => PrintT("CASE " \o ToJson([w |-> w, e |-> e]))
=============================================================================
