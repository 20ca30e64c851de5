CONSTANTS N = 5
 LabelDom = {1,2,3}
 Scheme = "exact"
SPECIFICATION Spec
INVARIANTS WholeEqualsChunks GlobalHasAll Partition
