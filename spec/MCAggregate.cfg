SPECIFICATION Spec
CONSTANTS Elems = {1, 2, 3} Bins = {1, 2}
INVARIANTS AccIsDefinition InfinityCounts NoLeak NaNPropagates SkipCounts EmptyBinUndefined Splits PartitionTotals
CHECK_DEADLOCK FALSE
