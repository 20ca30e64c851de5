SPECIFICATION Spec
CONSTANTS Years = {1896, 1899, 1900, 1999, 2000, 2019, 2020, 2023, 2024, 2100} Steps = 16 StepMin = 360 Laws = FALSE
INVARIANTS KeyIsClock Emit
CHECK_DEADLOCK FALSE
