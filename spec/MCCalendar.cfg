CONSTANTS Start = 1896
 Days = 14000
SPECIFICATION Spec
INVARIANT ClosedFormAgrees
