SPECIFICATION Spec
CONSTANTS NI = 3 NJ = 3 Sizes = {1,3} Both = TRUE
INVARIANTS CountBounds SizeOne Turns WrapOnlyAtSeam RowTotals SkillLaws 
CHECK_DEADLOCK FALSE
