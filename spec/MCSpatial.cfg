CONSTANTS Full = 8
 LimMax = 8
SPECIFICATION Spec
INVARIANTS WalkAgrees Convention LimitsInside ComplementCovers Rotation StartsCover Emit
