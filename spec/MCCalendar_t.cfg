CONSTANTS Start = 1796
 Days = 160000
SPECIFICATION Spec
INVARIANT ClosedFormAgrees
