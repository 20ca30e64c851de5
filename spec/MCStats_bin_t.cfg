SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Lo = 0
CONSTANT Hi = 1
CONSTANT MaxLen = 5
CONSTANT EmitLen = 4
INVARIANTS ChunksIrrelevant NanPropagates Partition ScoreLaws ErrorLaws Emit
