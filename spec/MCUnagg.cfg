SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxLost = 0 Broken = FALSE
INVARIANTS OwnTimes OncePerPosition Complete
VIEW View
CHECK_DEADLOCK FALSE
