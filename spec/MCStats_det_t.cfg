SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Lo = 0
CONSTANT Hi = 4
CONSTANT MaxLen = 3
CONSTANT EmitLen = 3
INVARIANTS ChunksIrrelevant NanPropagates Partition ScoreLaws ErrorLaws Emit
