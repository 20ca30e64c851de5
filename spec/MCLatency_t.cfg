CONSTANTS Horizon = 9
 Nominals = {0, 1, 3, 4, 6}
 Latencies = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS NoLookAhead RuleIsOperational Maximal
