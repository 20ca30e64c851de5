SPECIFICATION Spec
CONSTANTS Years = {2020} Steps = 0 StepMin = 360 Laws = TRUE
INVARIANTS KeyIsClock Equitable JaccardLaws QuantileLaws
CHECK_DEADLOCK FALSE
