SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxLost = 1 Broken = FALSE
INVARIANTS OwnTimes OncePerPosition Complete
VIEW View
CHECK_DEADLOCK FALSE
