CONSTANTS N = 3
 LabelDom = {1,2,3}
 Scheme = "sets"
SPECIFICATION Spec
INVARIANTS WholeEqualsChunks GlobalHasAll Partition Emit
