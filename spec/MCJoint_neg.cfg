SPECIFICATION Spec
CONSTANTS Metrics = {1, 2} Slots = {1, 2} Stats = {1, 2, 3} Distinct = FALSE
INVARIANTS JointIsAlone
