SPECIFICATION Spec
CONSTANTS NI = 3 NJ = 5 Sizes = {1,3} Both = FALSE
INVARIANTS CountBounds SizeOne Turns WrapOnlyAtSeam RowTotals SkillLaws Emit
CHECK_DEADLOCK FALSE
