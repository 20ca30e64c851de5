CONSTANTS Full = 8
 Lo = 10
 Hi = 18
 MaxPts = 4
SPECIFICATION Spec
INVARIANTS Unity Interpolates Reproduces Convex WrapConvex NoExtrapolation Inside Periodic Rotate WrapInside NearestIsHeavier Emit
