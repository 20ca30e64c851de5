SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxC = 6
INVARIANTS NoPairTwice CoverWhenDone BoundedChunks OffsetsAreFirstPositions Ordered EmitCase
CHECK_DEADLOCK FALSE
