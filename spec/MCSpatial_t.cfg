CONSTANTS Full = 24
 LimMax = 30
SPECIFICATION Spec
INVARIANTS WalkAgrees Convention LimitsInside ComplementCovers Rotation StartsCover
