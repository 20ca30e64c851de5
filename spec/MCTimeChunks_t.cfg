SPECIFICATION Spec
CONSTANTS MaxN = 8 MaxC = 9
INVARIANTS NoPairTwice CoverWhenDone BoundedChunks OffsetsAreFirstPositions Ordered EmitCase
CHECK_DEADLOCK FALSE
