CONSTANTS Full = 12
 Lo = 16
 Hi = 28
 MaxPts = 7
SPECIFICATION Spec
INVARIANTS Unity Interpolates Reproduces Convex WrapConvex NoExtrapolation Inside Periodic Rotate WrapInside NearestIsHeavier
