SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Lo = 0
CONSTANT Hi = 2
CONSTANT MaxLen = 3
CONSTANT EmitLen = 2
INVARIANTS ChunksIrrelevant NanPropagates Partition ScoreLaws ErrorLaws Emit
