CONSTANTS Horizon = 6
 Nominals = {0, 2, 3}
 Latencies = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS NoLookAhead RuleIsOperational Maximal Emit
